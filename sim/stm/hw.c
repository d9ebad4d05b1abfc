/*
 * Emulated USART and basic timer of an STM32G0 for one of the repository's example drivers (included by glue.c when
 * STM_ROLE is defined).  The driver is the repository's file, compiled unchanged; its register accesses arrive here
 * through the instrumentation (g_hw_access is called just before each access, the side effect is applied before the
 * next one).  Time, the serial line and the decision when an interrupt is taken belong to the simulator.
 * Register semantics: RM0444 (write-1-to-clear ICR, RDR/TDR, RQR, bits locked while UE=1, receiver time-out that starts
 * only after a received character, one-pulse timer with UG, rc_w0 SR).
 */
#include "modbus_driver_config.h"

/* simulator */
void sim_hw_pre_send(void *self, int role, int len);
void sim_hw_post_send(void *self, int role);
void sim_hw_initing(void *self, int role);
void sim_hw_enabling(void *self, int role, int on);
void sim_hw_shift(void *self, int byte);
void sim_hw_timer(void *self, long long ns);
void sim_hw_off(void *self);
void sim_hw_irq(void *self);
long long sim_hw_now(void *self);
void sim_hw_stored(void *self, int byte);
void sim_hw_cb(void *self, int role, int what);

#define ISR_RESET (USART_ISR_TXE_TXFNF | USART_ISR_TC)
struct sim_hw HW = {.usart = {.ISR = ISR_RESET}, .tim = {.ARR = 0xFFFF}};
static uint32_t isr = ISR_RESET, cr1, cr2, cr3, brr, tsr, tcr1, rdr;
static uint8_t tdr_full, shifting, tdr;
static uint32_t tim_cnt;
static long long tim_start;
static int nvic_on[2], nvic_prio[2], primask;
static int pend_op; /* 1 load 2 store */
static volatile uint32_t *pend_adr;
static modbus_buf_size_t last_len;

static int clocked(void) { return (HW.rcc.MODBUS_USART_CLK & MODBUS_USART_CLK_EN) != 0; }
static int on(void) { return (cr1 & USART_CR1_UE) && clocked(); }
static void show(void)
{
    HW.usart.ISR = isr;
    HW.usart.RDR = rdr;
    HW.usart.ICR = 0;
    HW.usart.RQR = 0;
    HW.tim.SR = tsr;
    HW.tim.EGR = 0;
}
static long long tick_ns(void) { return (long long)(HW.tim.PSC + 1) * 1000000000ll / (long long)MODBUS_TIMER_CLK_FREQ; }
static void tim_run(void)
{
    long long left = (long long)(HW.tim.ARR & 0xFFFF) + 1 - (long long)tim_cnt;
    if (left < 1)
        left += 0x10000;
    tim_start = sim_hw_now(g_self);
    if ((tcr1 & TIM_CR1_CEN) && (HW.tim.ARR & 0xFFFF) && (HW.rcc.APBENR1 & MODBUS_TIMER_CLK_EN))
        sim_hw_timer(g_self, left * tick_ns());
    else
        sim_hw_timer(g_self, -1);
}
static void tim_catch(void)
{
    if (tcr1 & TIM_CR1_CEN)
    {
        tim_cnt += (uint32_t)((sim_hw_now(g_self) - tim_start) / tick_ns());
        tim_start = sim_hw_now(g_self);
    }
}
static void usart_off(void)
{
    isr = ISR_RESET;
    tdr_full = shifting = 0;
    sim_hw_off(g_self);
}
#define LOCK1 (USART_CR1_M0 | USART_CR1_M1 | USART_CR1_PCE | USART_CR1_PS | USART_CR1_OVER8 | USART_CR1_DEAT | USART_CR1_DEDT | USART_CR1_FIFOEN)
#define LOCK2 (USART_CR2_STOP)
#define LOCK3 (USART_CR3_OVRDIS | USART_CR3_DEM | USART_CR3_DEP)
static void settle(void)
{
    int op = pend_op;
    volatile uint32_t *a = pend_adr;
    pend_op = 0;
    if (!op)
        return;
    USART_TypeDef *u = &HW.usart;
    TIM_TypeDef *t = &HW.tim;
    if (op == 1)
    {
        if (a == &u->RDR)
            isr &= ~USART_ISR_RXNE_RXFNE;
        show();
        return;
    }
    if (a == &u->TDR)
    {
        if (on() && (cr1 & USART_CR1_TE))
        {
            isr &= ~USART_ISR_TC;
            if (!shifting)
            {
                shifting = 1;
                show();
                sim_hw_shift(g_self, u->TDR & 0xFF);
            }
            else
            {
                tdr = u->TDR & 0xFF;
                tdr_full = 1;
                isr &= ~USART_ISR_TXE_TXFNF;
            }
        }
    }
    else if (a == &u->ICR)
        isr &= ~(u->ICR & ~(USART_ISR_TXE_TXFNF | USART_ISR_RXNE_RXFNE));
    else if (a == &u->RQR)
    {
        if (u->RQR & USART_RQR_RXFRQ)
            isr &= ~USART_ISR_RXNE_RXFNE;
        if (u->RQR & USART_RQR_TXFRQ)
        {
            tdr_full = 0;
            isr |= USART_ISR_TXE_TXFNF;
        }
    }
    else if (a == &u->CR1)
    {
        uint32_t v = u->CR1;
        if ((cr1 & USART_CR1_UE) && (v & USART_CR1_UE))
            v = (v & ~LOCK1) | (cr1 & LOCK1);
        int was = (cr1 & USART_CR1_UE) != 0;
        cr1 = u->CR1 = v;
        if (was && !(v & USART_CR1_UE))
            usart_off();
    }
    else if (a == &u->CR2)
    {
        if (cr1 & USART_CR1_UE)
            u->CR2 = (u->CR2 & ~LOCK2) | (cr2 & LOCK2);
        cr2 = u->CR2;
    }
    else if (a == &u->CR3)
    {
        if (cr1 & USART_CR1_UE)
            u->CR3 = (u->CR3 & ~LOCK3) | (cr3 & LOCK3);
        cr3 = u->CR3;
    }
    else if (a == &u->BRR)
    {
        if (cr1 & USART_CR1_UE)
            u->BRR = brr;
        brr = u->BRR;
    }
    else if (a == &t->CR1)
    {
        uint32_t v = t->CR1;
        if ((v ^ tcr1) & TIM_CR1_CEN)
        {
            tim_catch();
            tcr1 = v;
            tim_run();
        }
        tcr1 = v;
    }
    else if (a == &t->EGR)
    {
        if (t->EGR & TIM_EGR_UG)
        {
            tim_cnt = 0;
            if (!(tcr1 & (TIM_CR1_URS | TIM_CR1_UDIS)))
                tsr |= TIM_SR_UIF;
            tim_run();
        }
    }
    else if (a == &t->CNT)
    {
        tim_cnt = t->CNT;
        tim_run();
    }
    else if (a == &t->SR)
        tsr &= t->SR;
    show();
    sim_hw_irq(g_self);
}

/* ---- called by the simulator ------------------------------------------------------------------- */
EXPORT const int g_stm = STM_ROLE;
EXPORT char *const g_hw_lo = (char *)&HW, *const g_hw_hi = (char *)(&HW + 1);
EXPORT void g_hw_settle(void) { settle(); }
EXPORT void g_hw_access(void *adr, int store)
{
    pend_op = 1 + store;
    pend_adr = (volatile uint32_t *)((uintptr_t)adr & ~(uintptr_t)3);
    if (pend_adr == &HW.tim.CNT && !store)
    {
        tim_catch();
        HW.tim.CNT = tim_cnt;
    }
}
EXPORT int g_hw_rxon(void) { return on() && (cr1 & USART_CR1_RE); }
EXPORT int g_hw_rx(int byte)
{
    int lost = (isr & USART_ISR_RXNE_RXFNE) != 0;
    if (lost && !(cr3 & USART_CR3_OVRDIS))
        isr |= USART_ISR_ORE;
    else
        rdr = byte;
    isr |= USART_ISR_RXNE_RXFNE;
    show();
    return lost;
}
EXPORT int g_hw_rto_bits(void) { return on() && (cr2 & USART_CR2_RTOEN) ? (int)(HW.usart.RTOR & 0xFFFFFF) : 0; }
EXPORT void g_hw_rto(void)
{
    if (on() && (cr2 & USART_CR2_RTOEN))
        isr |= USART_ISR_RTOF;
    show();
}
EXPORT void g_hw_shifted(void)
{
    if (tdr_full)
    {
        tdr_full = 0;
        isr |= USART_ISR_TXE_TXFNF;
        show();
        sim_hw_shift(g_self, tdr);
    }
    else
    {
        shifting = 0;
        isr |= USART_ISR_TC;
        show();
    }
}
EXPORT void g_hw_timexp(void)
{
    tim_cnt = 0;
    if (tcr1 & TIM_CR1_OPM)
    {
        tcr1 &= ~TIM_CR1_CEN;
        HW.tim.CR1 = tcr1;
    }
    else
        tim_run();
    if (!(tcr1 & TIM_CR1_UDIS))
        tsr |= TIM_SR_UIF;
    show();
}
/* 0 nothing to do, 1 USART handler, 2 timer handler */
EXPORT int g_hw_pending(void)
{
    if (primask)
        return 0;
    int u = nvic_on[0] && (((isr & USART_ISR_RXNE_RXFNE) && (cr1 & USART_CR1_RXNEIE_RXFNEIE)) || ((isr & USART_ISR_TXE_TXFNF) && (cr1 & USART_CR1_TXEIE_TXFNFIE)) ||
                           ((isr & USART_ISR_TC) && (cr1 & USART_CR1_TCIE)) || ((isr & USART_ISR_RTOF) && (cr1 & USART_CR1_RTOIE)));
    int t = nvic_on[1] && (tsr & TIM_SR_UIF) && (HW.tim.DIER & TIM_DIER_UIE);
    if (u && t)
        return nvic_prio[0] < nvic_prio[1] || (nvic_prio[0] == nvic_prio[1] && (int)MODBUS_USART_IRQN < (int)MODBUS_TIMER_IRQN) ? 1 : 2;
    return u ? 1 : t ? 2 : 0;
}
EXPORT int g_hw_masked(void) { return primask; }
EXPORT void g_hw_call(int which)
{
    void MODBUS_USART_IRQHandler(void);
    void MODBUS_TIMER_IRQHandler(void);
    if (D[STM_ROLE].rx)
        last_len = D[STM_ROLE].rx->len;
    if (which == 1)
        MODBUS_USART_IRQHandler();
    else
        MODBUS_TIMER_IRQHandler();
    settle();
}
EXPORT int g_hw_len(void) { return D[STM_ROLE].rx ? (int)D[STM_ROLE].rx->len : -1; }
EXPORT int g_hw_line(int what)
{
    switch (what)
    {
    case 0: return brr ? (int)(MODBUS_USART_CLK_FREQ / brr) : 0;
    case 1: return !(cr1 & USART_CR1_PCE) ? NONE : (cr1 & USART_CR1_PS) ? ODD : EVEN;
    case 2: return (cr1 & USART_CR1_M1) ? 7 : (cr1 & USART_CR1_M0) ? 9 : 8;
    }
    return 0;
}

/* ---- core ----------------------------------------------------------------------------------------*/
void hw_nvic(int irq, int what, unsigned arg)
{
    int k = irq == MODBUS_USART_IRQN ? 0 : irq == MODBUS_TIMER_IRQN ? 1 : -1;
    settle();
    if (k < 0)
        return;
    if (what < 2)
        nvic_on[k] = what;
    if (what == 2)
        nvic_prio[k] = arg & 3;
    sim_hw_irq(g_self);
}
void hw_primask(int v)
{
    settle();
    primask = v;
    if (!v)
        sim_hw_irq(g_self);
}
int hw_primask_get(void) { return primask; }

/* ---- the driver under test, wrapped: the library's calls and the driver's callbacks are reported ---- */
const modbus_RTU_driver_struct_t *real_driver_interface(void);
EXPORT void g_hw_sync(void)
{
    modbus_req_resp_t *rx = D[STM_ROLE].rx;
    if (!rx)
        return;
    while (last_len != rx->len)
    {
        sim_hw_stored(g_self, rx->data[last_len]);
        last_len++;
    }
}
static void w_t15(void)
{
    g_hw_sync();
    sim_hw_cb(g_self, STM_ROLE, 1);
    if (D[STM_ROLE].t15)
        D[STM_ROLE].t15();
}
static void w_t35(void)
{
    g_hw_sync();
    sim_hw_cb(g_self, STM_ROLE, 2);
    if (D[STM_ROLE].t35)
        D[STM_ROLE].t35();
}
static void w_ferr(void)
{
    g_hw_sync();
    sim_hw_cb(g_self, STM_ROLE, 3);
    if (D[STM_ROLE].ferr)
        D[STM_ROLE].ferr();
}
static void w_txdone(void)
{
    g_hw_sync();
    sim_hw_cb(g_self, STM_ROLE, 4);
    if (D[STM_ROLE].txdone)
        D[STM_ROLE].txdone();
}
static void w_init(baud_t baud, parity_t parity)
{
    sim_hw_initing(g_self, STM_ROLE);
    real_driver_interface()->init(baud, parity);
    settle();
    sim_drv_init(g_self, STM_ROLE, (unsigned)baud, (int)parity);
}
static void w_send(modbus_buf_t *msg, modbus_buf_size_t len)
{
    D[STM_ROLE].tx = msg;
    D[STM_ROLE].tx_len = len;
    sim_hw_pre_send(g_self, STM_ROLE, len);
    real_driver_interface()->send(msg, len);
    settle();
    sim_hw_post_send(g_self, STM_ROLE);
}
static void w_enable(modbus_req_resp_t *buf)
{
    sim_hw_enabling(g_self, STM_ROLE, 1);
    D[STM_ROLE].rx = buf;
    real_driver_interface()->enable_rcev(buf);
    settle();
    sim_hw_enabling(g_self, STM_ROLE, 0);
}
static void w_disable(void)
{
    if (real_driver_interface()->disable_rcev)
        real_driver_interface()->disable_rcev();
    settle();
    sim_drv_disable(g_self, STM_ROLE);
}
static void w_s15(driver_subscr_cb_t cb)
{
    D[STM_ROLE].t15 = cb;
    real_driver_interface()->subscribe_t_1_5_char_expired_cb(w_t15);
}
static void w_s35(driver_subscr_cb_t cb)
{
    D[STM_ROLE].t35 = cb;
    real_driver_interface()->subscribe_t_3_5_char_expired_cb(w_t35);
}
static void w_stx(driver_subscr_cb_t cb)
{
    D[STM_ROLE].txdone = cb;
    real_driver_interface()->subscribe_msg_tx_done_cb(w_txdone);
}
static void w_sfe(driver_subscr_cb_t cb)
{
    D[STM_ROLE].ferr = cb;
    real_driver_interface()->subscribe_modbus_frame_error_cb(w_ferr);
}
static const modbus_RTU_driver_struct_t stm_driver = {
    .init = w_init,
    .send = w_send,
    .enable_rcev = w_enable,
    .disable_rcev = w_disable,
    .subscribe_t_1_5_char_expired_cb = w_s15,
    .subscribe_msg_tx_done_cb = w_stx,
    .subscribe_t_3_5_char_expired_cb = w_s35,
    .subscribe_modbus_frame_error_cb = w_sfe,
};
#if STM_ROLE == 0
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &stm_driver; }
#else
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &stm_driver; }
#endif
