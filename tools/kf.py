"""Rewrite the fixed: lines of known_findings.txt from /repo's history."""
import subprocess
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
m=[('bundled printf','C43'),('Python','C39'),('ping qualification','C40'),('buffer log checker','C41'),('stream s','C30'),('framer leaked frames','C27'),('framer used completed','C27'),('framer discarded ack','C26'),('framer lost messages sent','C37'),('framer resync reused','C37'),('framer refused damaged','C29'),('framer delivered frames','C25'),('framer send rejected','C22'),('framer lost a byte','C24'),('framer stopped its timer','C28'),('framer freed and resent','C27'),('framer resync treated','C29'),('framer asserted and left','C26'),('framer stopped sending','C28'),('framer used freed','C27'),('framer finalize leaked','C27'),('framer mistook','C24'),('list reverse_unsafe','C01'),('embc_list_contains','C01'),('embc_list_append','C01'),('intmap resize dropped','C02'),('intmap resize leaked','C06'),('intmap iterator never','C03'),('intmap remove leaked','C06'),('typed intmap free','C06'),('hashmap free','C06'),('event manager fired','C16'),('event manager scheduled','C16'),('event manager free leaked','C06'),('event manager dereferenced','C36'),('embc_cstr','C09'),('block allocator','C10'),('embc_mblock_free','C10'),('byte buffer macros','C15'),('EMBC_BUFFER_STATIC','C14'),('buffer allocator accepted','C13'),('buffer string write','C14'),('state machine init','C17'),('pattern receiver','C19'),('CLI executed','C20'),('CLI printed','C20'),('CLI line parser','C21'),('CLI passed','C21'),('log level names','C33'),('EMBC_LOG_ALERT','C33'),('log level checks','C33'),('time to counter','C31'),('EMBC_ROUND_UP','C32')]
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    s=s[5:]
    c=[p for k,p in m if s.startswith(k)]
    assert c,s
    out.append('fixed: property=%s %s %s\n'%(c[0],h,s))
try: keep=[l for l in open('/verif/known_findings.txt') if l.startswith('KNOWN-FINDING')]
except OSError: keep=[]
open('/verif/known_findings.txt','w').write(''.join(keep+out))
