#ifndef SERVER_ENV_H
#define SERVER_ENV_H
#include "vp.h"
#include <common.h>
#include <libcommon.h>
#include <opendax.h>
#include "tagbase.h"
#include "message.h"
#include "module.h"
#include "groups.h"
#include "retain.h"

#ifndef VP_CAP
#define VP_CAP 24
#endif
#define VP_NEVT 8
/* The last reply (response or error) the server wrote, and how many. */
struct vp_msg { int fd; uint32_t len, size, type; uint8_t data[VP_CAP]; };
extern struct vp_msg vp_rsp; extern int vp_rsp_count;
/* Event notifications, counted per event id (1..VP_NEVT-1), plus the last one. */
extern struct vp_msg vp_evt; extern int vp_evt_count[VP_NEVT], vp_evt_total, vp_evt_bad;
extern int vp_evt_fd[VP_NEVT], vp_evt_tag[VP_NEVT], vp_evt_kind[VP_NEVT]; /* of the last notification with this id */
extern int64_t vp_clock_ms, vp_tv_sec; /* vp_tv_sec >= 0: the time is that many seconds and 123999 us */
extern int vp_closed[16];
extern int vp_fail_writes;
extern int vp_killed;

void vp_server_start(void);                  /* msg_setup + initialize_tagbase */
/* Deliver one message as it is on the wire (len = payload length) */
int vp_send(int fd, uint32_t type, const void *payload, uint32_t len);
/* A symbolic length, split into concrete ones so that the fields in front of it stay concrete */
#define VP_SEND_LEN(fd, type, m, len, lo, hi) do { for(uint32_t vp_l = (lo); vp_l <= (uint32_t)(hi); vp_l++) if((len) == vp_l) { vp_send(fd, type, m, vp_l); break; } } while(0)
void vp_put32(uint8_t *p, uint32_t v);
uint32_t vp_get32(const uint8_t *p);
#define VP_IS_RESPONSE(cmd) (vp_rsp_count == 1 && vp_rsp.type == ((cmd) | 0x01000000u))
#define VP_IS_ERROR(cmd) (vp_rsp_count == 1 && vp_rsp.type == ((cmd) | 0x02000000u) && vp_rsp.size == 4)
#define VP_RSP_RESET() do { vp_rsp_count = 0; } while(0)
void vp_evt_reset(void);
#endif
