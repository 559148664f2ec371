// stand-in for the AIX header: see loadquery() in the AIX documentation
#ifndef HX_LDR_H
#define HX_LDR_H
#include <stddef.h>
#define L_GETINFO 2
struct ld_info { unsigned ldinfo_next; int ldinfo_fd; void *ldinfo_textorg; unsigned long ldinfo_textsize; void *ldinfo_dataorg; unsigned long ldinfo_datasize; char ldinfo_filename[2]; };
#ifdef __cplusplus
extern "C"
#endif
int loadquery(int flags, void *buffer, unsigned length);
#endif
