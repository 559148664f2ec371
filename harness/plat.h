// Other systems than Linux with glibc: their macros are set after the system's own headers were read, right before the generated code.
// PLAT: 1 macOS, 2 Android, 3 AIX, 4 FreeBSD, 5 Linux with another C library
#if defined(PLAT)&&PLAT!=0
#undef __GLIBC__
#if PLAT!=2&&PLAT!=5
#undef __linux__
#undef __linux
#undef linux
#endif
#if PLAT==1
#define __APPLE__ 1
#elif PLAT==2
#define __ANDROID__ 1
#elif PLAT==3
#define _AIX 1
#define RTLD_MEMBER 0x40000
#elif PLAT==4
#define __FreeBSD__ 14
#endif
#define PLAT_NONS (PLAT!=0)
#if PLAT==3
#define PLAT_FLAGS (RTLD_LAZY|0x40000)
#else
#define PLAT_FLAGS RTLD_LAZY
#endif
#else
#ifndef PLAT
#define PLAT 0
#endif
#define PLAT_NONS 0
#define PLAT_FLAGS RTLD_LAZY
#endif
