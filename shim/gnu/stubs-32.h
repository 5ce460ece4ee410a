/* analysis only: stands for the generated header of the 32-bit C library */
