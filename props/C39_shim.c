// What the headers say: constants and layouts.
#include "embc/stream/framer.h"
#include "embc/memory/buffer.h"
#include "embc/pattern_32a.h"
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
void embc_fatal(char const *file, int line, char const *msg) { fprintf(stderr, "%s:%d: %s\n", file, line, msg); abort(); }
struct c39_s { const char *group, *name; int offset, size; };
#define F(s, f) {#s, #f, offsetof(struct s, f), sizeof(((struct s *) 0)->f)}
#define K(group, name, v) {group, name, (int) (v), 0}
static const struct c39_s table[] = {
    K("Port0", "RESYNC", EMBC_FRAMER_PORT0_RESYNC), K("Port0", "PING_REQ", EMBC_FRAMER_PORT0_PING_REQ), K("Port0", "PING_RSP", EMBC_FRAMER_PORT0_PING_RSP),
    K("Port0", "STATUS_REQ", EMBC_FRAMER_PORT0_STATUS_REQ), K("Port0", "STATUS_RSP", EMBC_FRAMER_PORT0_STATUS_RSP), K("", "MAX_RETRIES", EMBC_FRAMER_MAX_RETRIES),
    F(embc_framer_status_s, version), F(embc_framer_status_s, rx_count), F(embc_framer_status_s, rx_data_count), F(embc_framer_status_s, rx_ack_count),
    F(embc_framer_status_s, rx_deduplicate_count), F(embc_framer_status_s, rx_synchronization_error), F(embc_framer_status_s, rx_mic_error),
    F(embc_framer_status_s, rx_frame_id_error), F(embc_framer_status_s, tx_count), F(embc_framer_status_s, tx_retransmit_count),
    F(embc_buffer_s, data), F(embc_buffer_s, capacity), F(embc_buffer_s, cursor), F(embc_buffer_s, length), F(embc_buffer_s, reserve),
    F(embc_buffer_s, buffer_id), F(embc_buffer_s, flags), F(embc_buffer_s, manager), F(embc_buffer_s, item),
    K("sizeof", "embc_pattern_32a_tx_s", sizeof(struct embc_pattern_32a_tx_s)), K("sizeof", "embc_pattern_32a_rx_s", sizeof(struct embc_pattern_32a_rx_s)),
    K("sizeof", "embc_framer_status_s", sizeof(struct embc_framer_status_s)), K("sizeof", "embc_buffer_s", sizeof(struct embc_buffer_s)),
    K("sizeof", "embc_framer_hal_callbacks_s", sizeof(struct embc_framer_hal_callbacks_s)), K("sizeof", "embc_framer_port_callbacks_s", sizeof(struct embc_framer_port_callbacks_s)),
    {0, 0, 0, 0}};
const struct c39_s *c39_table(void) { return table; }
