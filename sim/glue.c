/*
 * Glue between one copy ("image") of the real MODBUS library and the simulator.
 *
 * This is the only file that includes the repository's headers.  It is compiled once per image together
 * with every .c file under /repo/src.  It implements the two interfaces the library expects from an
 * application - the RTU driver and the master data interface - by forwarding every call to the simulator
 * (sim_* functions, resolved in the simulator executable), and exports the library API under fixed names.
 * It is compiled WITHOUT instrumentation: preemption points exist only inside the library's own code.
 */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include "modbus_config.h"
#include "modbus_type.h"
#include "modbus_driver_interface.h"
#include "modbus_master.h"
#include "modbus_master_data_interface.h"
#include "modbus_slave.h"

#define EXPORT __attribute__((visibility("default")))

/* implemented by the simulator */
void sim_drv_init(void *self, int role, unsigned baud, int parity);
void sim_drv_send(void *self, int role, int len);
void sim_drv_enable(void *self, int role);
void sim_drv_disable(void *self, int role);
void sim_app_read(void *self, int kind, int sid, int adr, int val);
void sim_app_written(void *self, int kind, int sid, int adr, int qty);
void sim_app_exc(void *self, int kind, int sid, int fc, int code, int adr, int qty);
void sim_app_error(void *self, int kind, int sid, int fc, int adr, int qty, int err);

struct drv
{
    driver_subscr_cb_t t15, t35, ferr, txdone;
    modbus_req_resp_t *rx;
    const modbus_buf_t *tx;
    int tx_len;
};
static struct drv D[2];
EXPORT void *g_self;

/* configuration of this image, read by the simulator */
EXPORT const int g_cfg[7] = {
    MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS,
    MODBUS_MASTER_RESP_TIME_OUT_MS,
    MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR,
    MAIN_APP_COILS_QTY,
    MAIN_APP_DISCRET_INPUTS_QTY,
    MAIN_APP_INPUT_REG_QTY,
    MAIN_APP_HOLDING_REG_QTY,
};
EXPORT const int g_enum[8] = {
    MODBUS_MASTER_REQUEST_SEND_TO_QUEUE,
    MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR,
    MODBUS_MASTER_RESP_RTU_CRC_ERR,
    MODBUS_MASTER_RESP_TIMEOUT_ERR,
    MODBUS_MASTER_RESP_FRAME_ERR,
};

/* ---- driver ------------------------------------------------------------------------------------ */
#define DRIVER(R, N)                                                                                     \
    static void N##_init(baud_t baud, parity_t parity) { sim_drv_init(g_self, R, (unsigned)baud, (int)parity); } \
    static void N##_send(modbus_buf_t *msg, modbus_buf_size_t len)                                       \
    {                                                                                                    \
        D[R].tx = msg;                                                                                   \
        D[R].tx_len = len;                                                                               \
        sim_drv_send(g_self, R, len);                                                                    \
    }                                                                                                    \
    static void N##_enable(modbus_req_resp_t *buf)                                                       \
    {                                                                                                    \
        D[R].rx = buf;                                                                                   \
        sim_drv_enable(g_self, R);                                                                       \
    }                                                                                                    \
    static void N##_disable(void) { sim_drv_disable(g_self, R); }                                        \
    static void N##_s15(driver_subscr_cb_t cb) { D[R].t15 = cb; }                                        \
    static void N##_s35(driver_subscr_cb_t cb) { D[R].t35 = cb; }                                        \
    static void N##_stx(driver_subscr_cb_t cb) { D[R].txdone = cb; }                                     \
    static void N##_sfe(driver_subscr_cb_t cb) { D[R].ferr = cb; }                                       \
    static const modbus_RTU_driver_struct_t N##_driver = {                                               \
        .init = N##_init,                                                                                \
        .send = N##_send,                                                                                \
        .enable_rcev = N##_enable,                                                                       \
        .disable_rcev = N##_disable,                                                                     \
        .subscribe_t_1_5_char_expired_cb = N##_s15,                                                      \
        .subscribe_msg_tx_done_cb = N##_stx,                                                             \
        .subscribe_t_3_5_char_expired_cb = N##_s35,                                                      \
        .subscribe_modbus_frame_error_cb = N##_sfe,                                                      \
    };
DRIVER(0, master)
DRIVER(1, slave)
#if !defined(STM_ROLE) || STM_ROLE != 0
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &master_driver; }
#endif
#if !defined(STM_ROLE) || STM_ROLE != 1
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &slave_driver; }
#endif

/* interrupts raised by the simulator; g_isr_rx returns 1 if the byte was stored, 0 if it was dropped */
EXPORT int g_isr_rx(int role, int byte)
{
    modbus_req_resp_t *rx = D[role].rx;
    if (NULL == rx || NULL == rx->data || rx->len >= 255)
        return 0;
    rx->data[rx->len] = (modbus_buf_t)byte;
    rx->len++;
    return 1;
}
EXPORT void *g_rx_len(int role) { return D[role].rx ? &D[role].rx->len : NULL; }
EXPORT void g_isr_t15(int role) { if (D[role].t15) D[role].t15(); }
EXPORT void g_isr_t35(int role) { if (D[role].t35) D[role].t35(); }
EXPORT void g_isr_ferr(int role) { if (D[role].ferr) D[role].ferr(); }
EXPORT void g_isr_txdone(int role) { if (D[role].txdone) D[role].txdone(); }
EXPORT int g_tx_byte(int role, int pos) { return D[role].tx[pos]; }

/* ---- library API ------------------------------------------------------------------------------- */
EXPORT int g_master_req(int fc, int adr, int qty, int sid, uint16_t *regs, bool *coils, int val)
{
    switch (fc)
    {
    case 1: return modbus_master_read_coils(adr, qty, sid);
    case 2: return modbus_master_read_discrete_inputs(adr, qty, sid);
    case 3: return modbus_master_read_holding_reg(adr, qty, sid);
    case 4: return modbus_master_read_input_reg(adr, qty, sid);
    case 5: return modbus_master_write_single_coil(adr, sid, val);
    case 6: return modbus_master_write_single_reg(adr, sid, val);
    case 15: return modbus_master_write_multiple_coils(adr, qty, sid, coils);
    case 16: return modbus_master_write_multiple_reg(adr, qty, sid, regs);
    }
    return -1;
}
EXPORT void g_master_init(unsigned baud, int parity, int unsupported)
{
    modbus_master_init(unsupported ? UNKNOWN_MODE : RTU, baud, (parity_t)parity);
}
EXPORT void g_master_poll(void) { update_modbus_master_manager(); }
EXPORT void g_master_tick(void) { update_modbus_master_timout_timer(); }
EXPORT void g_slave_init(unsigned baud, int parity, int sid, int unsupported)
{
    modbus_slave_init(unsupported ? UNKNOWN_MODE : RTU, baud, (parity_t)parity, sid);
}
EXPORT void g_slave_poll(void) { check_modbus_request(); }
EXPORT void g_reg(int table, int adr, void *p)
{
    switch (table)
    {
    case 0: register_app_data_to_modbus_slave_coils_table(adr, (modbus_coil_disin_t *)p); break;
    case 1: register_app_data_to_modbus_slave_din_table(adr, (modbus_coil_disin_t *)p); break;
    case 2: register_app_data_to_modbus_slave_inreg_table(adr, (modbus_reg_t *)p); break;
    case 3: register_app_data_to_modbus_slave_hreg_table(adr, (modbus_reg_t *)p); break;
    }
}

/* ---- master data interface (kind: 0 coil, 1 discrete input, 2 input register, 3 holding register) */
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { sim_app_read(g_self, 0, s, a, v); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { sim_app_read(g_self, 1, s, a, v); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { sim_app_read(g_self, 2, s, a, v); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { sim_app_read(g_self, 3, s, a, v); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { sim_app_written(g_self, 0, s, a, q); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { sim_app_written(g_self, 3, s, a, q); }
static void exc(int kind, const modbus_read_data_t *r)
{
    sim_app_exc(g_self, kind, r->slave_ID, r->fun_conde, r->exception_code, r->data_adr, r->data_qty);
}
void modbus_master_coil_exception(const modbus_read_data_t *r) { exc(0, r); }
void modbus_master_disin_exception(const modbus_read_data_t *r) { exc(1, r); }
void modbus_master_inreg_exception(const modbus_read_data_t *r) { exc(2, r); }
void modbus_master_hreg_exception(const modbus_read_data_t *r) { exc(3, r); }
static void err(int kind, const modbus_master_error_report_t *r)
{
    sim_app_error(g_self, kind, r->slave_ID, r->fun_conde, r->data_adr, r->data_qty, r->resp_read_error);
}
void modbus_master_data_timeout_error(const modbus_master_error_report_t *r) { err(0, r); }
void modbus_master_communication_error(const modbus_master_error_report_t *r) { err(1, r); }

#ifdef STM_ROLE
#include "stm/hw.c" /* one of the repository's drivers, on emulated hardware */
#endif
