// C31: 34Q30 time conversions against exact rational arithmetic.
#include "pbt.hpp"
#include <cmath>
extern "C" {
long long c31_fn(int which, long long x, long long z);
double c31_to_f(int single, long long x);
long long c31_from_f(int single, double d);
long long c31_const(int i);
}
using pbt::Tape;
typedef __int128 I;
typedef long long ll;
static const I S = (I) 1 << 30;
static ll fdiv(I a, I b) { I q = a / b; if (a % b && ((a < 0) != (b < 0))) --q; return (ll) q; }
static ll cdiv(I a, I b) { return -fdiv(-a, b); }
// nearest; an exact half goes up for positive times, either way for negative ones
static bool nearest(I num, I den, ll got) {
    I d2 = 2 * (num - (I) got * den);  // |error| <= 1/2
    if (d2 < 0 ? -d2 > den : d2 > den) return false;
    if ((d2 == den || -d2 == den) && num > 0) return d2 == -den;  // rounded up
    return true;
}
static ll pick_time(Tape &t, ll lim) {  // |x| <= lim
    ll x;
    switch (t.pick(6)) {
        case 0: x = (ll) t.pick(16); break;
        case 1: x = (ll) t.pick(1u << 31); break;
        case 2: x = (ll) (t.pick(4000) << 30) + (ll) t.pick(5) - 2; break;
        case 3: x = (ll) (t.pick(4000) << 30) + (1ll << 29) + (ll) t.pick(5) - 2; break;
        case 4: x = (ll) t.u(63); break;
        default: x = lim - (ll) t.pick(64); break;
    }
    if (x > lim) x %= lim + 1;
    if (x < 0) x = 0;
    return t.flip() ? -x : x;
}
PBT_PROP("C31", 6000000, 40000000,
         "random times (small, whole and half seconds plus or minus 2 ticks, full range) and counter frequencies (1 Hz to 1 THz, powers of ten, arbitrary), arguments "
         "given plainly, as expressions and as 32-bit integers, for every conversion, constant and absolute value; results compared with exact 128-bit rational "
         "arithmetic inside the non-overflowing range, plus both round trips; non-trivial: value other than 0 and not a whole number of seconds or ticks") {
    const ll maxt = INT64_MAX;
    ll z;
    switch (t.pick(5)) { case 0: z = (ll) t.range(1, 20); break; case 1: z = t.oneof<ll>({1, 1000, 1000000, 1000000000, 32768, 48000000}); break;
        case 2: z = (ll) t.range(1, 100000); break; case 3: z = (ll) t.range(1, 2000000000); break; default: z = 1 + (ll) t.u(1 + (unsigned) t.pick(40)); }
    int op = (int) t.pick(9);
    switch (op) {
        case 0: case 1: case 2: {  // time to ticks
            int form = (int) t.pick(z > INT32_MAX ? 2 : 3);
            ll lim = (ll) (((I) maxt - S) / z);
            if (form == 2) lim = std::min<ll>(lim, INT32_MAX);
            ll x = pick_time(t, lim);
            int f = op == 0 ? (form == 2 ? 17 : form) : op == 1 ? (form == 2 ? 22 : 2 + form) : (form == 2 ? 21 : 4 + form);
            ll r = c31_fn(f, x, z);
            I n = (I) x * z;
            NOTE(t, "time %lld to ticks of %lld Hz, %s -> %lld", x, z, op == 0 ? "nearest" : op == 1 ? "up" : "down", r);
            if (op == 0) PBT_CHECK(nearest(n, S, r), "time %lld in ticks of %lld Hz is %.9g, conversion to nearest gives %lld", x, z, (double) n / 1073741824.0, r);
            else PBT_EQ(r, op == 1 ? cdiv(n, S) : fdiv(n, S), "time %lld in ticks of %lld Hz rounded %s (%s)", x, z, op == 1 ? "up" : "down", form == 1 ? "expression arguments" : form ? "32-bit arguments" : "plain");
            if (n % S) t.nontrivial();
            t.label(op == 0 ? "nearest" : op == 1 ? "round up" : "round down");
            break;
        }
        case 3: {  // ticks to time
            int form = (int) t.pick(z > INT32_MAX ? 2 : 3);
            ll lim = form == 2 ? INT32_MAX : (1ll << 33) - 1;
            ll x = pick_time(t, lim);
            ll r = c31_fn(form == 2 ? 18 : 6 + form, x, z);
            I n = (I) x * S;
            NOTE(t, "%lld ticks of %lld Hz to time -> %lld", x, z, r);
            // within one tick of the exact value and never further from zero
            PBT_CHECK(r == fdiv(n, z) || r == cdiv(n, z), "%lld ticks of %lld Hz are time %.3f, conversion gives %lld", x, z, (double) n / (double) z, r);
            if (z <= (1 << 29)) {  // converting back to nearest must return the ticks
                if ((I) r * z < (I) maxt - S && (I) r * z > -((I) maxt - S))
                    PBT_EQ(c31_fn(0, r, z), x, "%lld ticks of %lld Hz to time %lld and back", x, z, r);
            }
            if (n % z) t.nontrivial();
            t.label("ticks to time");
            break;
        }
        case 4: {  // named units
            static const ll hz[] = {1, 1000, 1000000, 1000000000};
            int u = (int) t.pick(4);
            ll x = pick_time(t, (ll) (((I) maxt - S) / hz[u]));
            ll r = c31_fn(8 + u, x, 0);
            NOTE(t, "time %lld to unit %lld -> %lld", x, hz[u], r);
            PBT_CHECK(nearest((I) x * hz[u], S, r), "time %lld is %.9g units of 1/%lld s, conversion gives %lld", x, (double) x * (double) hz[u] / 1073741824.0, hz[u], r);
            if (x % (1 << 30)) t.nontrivial();
            t.label("to unit");
            break;
        }
        case 5: {
            static const ll hz[] = {1, 1000, 1000000, 1000000000};
            int u = (int) t.pick(6);
            ll x = pick_time(t, u >= 4 ? INT32_MAX : (1ll << 33) - 1);
            if (u == 5 && x < 0) x = -x;
            ll r = c31_fn(u == 4 ? 19 : u == 5 ? 20 : 12 + u, x, 0);
            ll h = u == 4 ? 1 : u == 5 ? 1000 : hz[u];
            NOTE(t, "%lld units of 1/%lld s to time -> %lld", x, h, r);
            I n = (I) x * S;
            PBT_CHECK(r == fdiv(n, h) || r == cdiv(n, h), "%lld units of 1/%lld s converts to time %lld, exactly %.3f", x, h, r, (double) n / (double) h);
            if (x % h || h == 1) t.nontrivial();
            t.label("from unit");
            break;
        }
        case 6: {  // floating point
            bool single = t.flip();
            ll x = pick_time(t, (1ll << 53) - 1);
            double d = c31_to_f(single, x);
            NOTE(t, "time %lld as %s -> %.17g", x, single ? "f32" : "f64", d);
            double exact = std::ldexp((double) x, -30);
            if (!single) {
                PBT_CHECK(d == exact, "time %lld is %.17g s, conversion to double gives %.17g", x, exact, d);
                PBT_EQ(c31_from_f(0, d), x, "time %lld through double", x);
            } else {
                PBT_CHECK((float) d == (float) exact, "time %lld is %.9g s, conversion to float gives %.9g", x, exact, d);
                ll b = c31_from_f(1, d), tol = (ll) (std::fabs((double) x) * 1.2e-7) + 1;
                PBT_CHECK(std::llabs(b - x) <= tol, "time %lld through float gives %lld", x, b);
            }
            if (x % (1 << 30)) t.nontrivial();
            t.label(single ? "f32" : "f64");
            break;
        }
        case 7: {
            ll x = pick_time(t, maxt);
            NOTE(t, "abs(%lld)", x);
            PBT_EQ(c31_fn(16, x, 0), x < 0 ? -x : x, "absolute value of %lld", x);
            if (x % (1 << 30)) t.nontrivial();
            t.label("abs");
            break;
        }
        default: {
            static const ll sec = 1ll << 30;
            static const ll want[] = {sec, sec / 1000, sec / 1000000, 1, sec * 60, sec * 3600, sec * 86400, sec * 604800, sec * 86400 * 365, sec * 86400 * 365 / 12,
                                      INT64_MAX, INT64_MIN, 1514764800, 30};
            int i = (int) t.pick(14);
            NOTE(t, "constant %d", i);
            PBT_EQ(c31_const(i), want[i], "time constant %d", i);
            t.label("constant");
        }
    }
}
