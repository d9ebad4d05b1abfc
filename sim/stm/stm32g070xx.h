/* The repository's device header (register layouts and bit definitions) with the peripherals replaced by emulated ones. */
#ifndef SIM_STM32G070XX_H
#define SIM_STM32G070XX_H
#include_next "stm32g070xx.h"
struct sim_hw
{
    USART_TypeDef usart;
    TIM_TypeDef tim;
    RCC_TypeDef rcc;
    GPIO_TypeDef gpio;
};
extern struct sim_hw HW;
#undef USART1
#undef USART2
#undef USART3
#undef USART4
#undef TIM3
#undef TIM6
#undef TIM7
#undef TIM14
#undef TIM15
#undef TIM16
#undef TIM17
#undef RCC
#undef GPIOA
#undef GPIOB
#undef GPIOC
#undef GPIOD
#define USART1 (&HW.usart)
#define USART2 (&HW.usart)
#define USART3 (&HW.usart)
#define USART4 (&HW.usart)
#define TIM3 (&HW.tim)
#define TIM6 (&HW.tim)
#define TIM7 (&HW.tim)
#define TIM14 (&HW.tim)
#define TIM15 (&HW.tim)
#define TIM16 (&HW.tim)
#define TIM17 (&HW.tim)
#define RCC (&HW.rcc)
#define GPIOA (&HW.gpio)
#define GPIOB (&HW.gpio)
#define GPIOC (&HW.gpio)
#define GPIOD (&HW.gpio)
#endif
