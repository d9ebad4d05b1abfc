/* Stand-in for the CMSIS core header: the parts of the Cortex-M0+ that a driver uses, forwarded to the emulation. */
#ifndef SIM_CORE_CM0PLUS_H
#define SIM_CORE_CM0PLUS_H
#include <stdint.h>
#define __I volatile const
#define __O volatile
#define __IO volatile
#define __IM volatile const
#define __OM volatile
#define __IOM volatile
#ifndef __STATIC_INLINE
#define __STATIC_INLINE static inline
#endif
#ifndef __INLINE
#define __INLINE inline
#endif
#define __STATIC_FORCEINLINE static inline
void hw_nvic(int irq, int what, unsigned arg); /* what: 0 disable 1 enable 2 priority 3 pend 4 clear pending */
void hw_primask(int on);
int hw_primask_get(void);
static inline void NVIC_SetPriority(int irq, uint32_t p) { hw_nvic(irq, 2, p); }
static inline void NVIC_EnableIRQ(int irq) { hw_nvic(irq, 1, 0); }
static inline void NVIC_DisableIRQ(int irq) { hw_nvic(irq, 0, 0); }
static inline void NVIC_SetPendingIRQ(int irq) { hw_nvic(irq, 3, 0); }
static inline void NVIC_ClearPendingIRQ(int irq) { hw_nvic(irq, 4, 0); }
static inline void __disable_irq(void) { hw_primask(1); }
static inline void __enable_irq(void) { hw_primask(0); }
static inline uint32_t __get_PRIMASK(void) { return hw_primask_get(); }
static inline void __set_PRIMASK(uint32_t v) { hw_primask(v & 1); }
static inline void __NOP(void) {}
static inline void __DSB(void) {}
static inline void __ISB(void) {}
static inline void __DMB(void) {}
#endif
