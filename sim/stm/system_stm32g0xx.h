/* empty: the emulation needs no system clock code */
