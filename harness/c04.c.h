// the ioctl() query of the process map, which older headers lack
#ifdef IOCTL
#include <linux/types.h>
#include <linux/fs.h>
#ifndef PROCMAP_QUERY
struct procmap_query { __u64 size,query_flags,query_addr,vma_start,vma_end,vma_flags,vma_page_size,vma_offset,inode; __u32 dev_major,dev_minor,vma_name_size,build_id_size; __u64 vma_name_addr,build_id_addr; };
#define PROCMAP_QUERY_FILE_BACKED_VMA 32
#define PROCMAP_QUERY_COVERING_OR_NEXT_VMA 16
#define PROCMAP_QUERY 0xc0686611ul
#endif
#else
#include <linux/fs.h>
#undef PROCMAP_QUERY
#endif
