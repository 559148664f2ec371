// Stand-in for the part of the Windows API the generated code uses, on top of the stub linker in dl.h.
// HX_WIN=1: LoadLibrary etc., 2: dlfcn-win32 (GDO_USE_DLOPEN). The compiler still targets Linux: wchar_t has 32 bits, sizes of long differ.
#ifndef HX_WIN_H
#define HX_WIN_H
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void *HMODULE; typedef unsigned int DWORD; typedef int BOOL; typedef int (*FARPROC)(void); typedef unsigned int UINT;
#define TRUE 1
#define FALSE 0
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_OUTOFMEMORY 14
#define ERROR_INVALID_NAME 123
#define ERROR_NOT_FOUND 1168
#define ERROR_INVALID_PARAMETER 87
#define ERROR_ALREADY_EXISTS 183
#define ERROR_MOD_NOT_FOUND 126
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000
#define FORMAT_MESSAGE_MAX_WIDTH_MASK 0xff
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p,s) (((s)<<10)|(p))
#define MB_OK 0
#define MB_ICONERROR 16
#define _TRUNCATE ((size_t)-1)
#undef _countof
#define _countof(a) (sizeof(a)/sizeof((a)[0]))
static DWORD hx_code_; static int hx_wide, hx_mute, hx_bufs, hx_convfail; /* last error; a wide name was used; FormatMessage() fails; buffers not freed; a conversion failed */
#ifndef HX_DUPFAIL
#define HX_DUPFAIL() 0
#endif
#ifndef HX_CONV
#define HX_CONV() sym_choice(2,"conv")
#endif
#ifndef HX_CODE
#define HX_CODE() 126
#endif
#ifndef HX_TEXT
#define HX_TEXT(id) ((id)==0?"all is well":(id)==6?"invalid handle":(id)==123?"invalid name":"not there")
#endif
static HMODULE hx_open_ex(const char *f,void *x,DWORD fl){ sym_assert(!x,"the reserved argument is not null"); HMODULE h=hx_do_open(f,(int)fl,0); if(!h) hx_code_=HX_CODE(); return h; }
HMODULE LoadLibraryExA(const char *f,void *x,DWORD fl){ hx_wide=0; return hx_open_ex(f,x,fl); }
static char hx_nar[sizeof hx_file];
HMODULE LoadLibraryExW(const wchar_t *f,void *x,DWORD fl){ hx_wide=1; sym_assert(f!=0,"the linker is called with a null name"); size_t i=0; for(;;i++){ sym_assert(i<sizeof hx_nar,"harness: name too long"); hx_nar[i]=(char)f[i]; if(!f[i]) break; sym_assert((unsigned)f[i]<256,"a character of the name is widened wrongly"); } return hx_open_ex(hx_nar,x,fl); }
HMODULE LoadLibraryA(const char *f){ return LoadLibraryExA(f,0,0); }
HMODULE LoadLibraryW(const wchar_t *f){ return LoadLibraryExW(f,0,0); }
FARPROC GetProcAddress(HMODULE h,const char *s){ void *p=hx_dlsym(h,s); if(!p) hx_code_=HX_CODE(); return (FARPROC)p; }
BOOL FreeLibrary(HMODULE h){ if(hx_dlclose(h)==0) return TRUE; hx_code_=HX_CODE(); return FALSE; }
DWORD GetLastError(void){ return hx_code_; }
static void hx_fm(DWORD fl,const void *src,DWORD lang,DWORD n,void *args){ (void)lang; sym_assert(fl==(0x100|0x200|0x1000|0xff),"unexpected flags for the message"); sym_assert(!src&&!n&&!args,"unexpected arguments for the message"); }
DWORD FormatMessageA(DWORD fl,const void *src,DWORD id,DWORD lang,char *buf,DWORD n,void *args){ hx_fm(fl,src,lang,n,args); if(hx_mute) return 0; const char *t=HX_TEXT(id); size_t l=strlen(t); char *p=(char*)malloc(l+1); memcpy(p,t,l+1); *(char**)buf=p; hx_bufs++; return l; }
DWORD FormatMessageW(DWORD fl,const void *src,DWORD id,DWORD lang,wchar_t *buf,DWORD n,void *args){ hx_fm(fl,src,lang,n,args); if(hx_mute) return 0; const char *t=HX_TEXT(id); size_t l=strlen(t); wchar_t *p=(wchar_t*)malloc((l+1)*sizeof(wchar_t)); for(size_t i=0;i<=l;i++) p[i]=(unsigned char)t[i]; *(wchar_t**)buf=p; hx_bufs++; return l; }
void *LocalFree(void *p){ sym_assert(p&&hx_bufs>0,"a buffer is freed twice"); hx_bufs--; free(p); return 0; }
#ifndef HX_MODNAME
static char hx_mod[8]; static const char *hx_modname(void *h){ int l=hx_idx(h); sym_assert(l>=0&&hx_live[l],"path query on something that is no open handle"); strcpy(hx_mod,"/lib"); hx_mod[4]='0'+l; hx_mod[5]=0; return hx_mod; }
#define HX_MODNAME(h) hx_modname(h)
#endif
/* null: failed; what does not fit is cut and terminated */
DWORD GetModuleFileNameA(HMODULE h,char *buf,DWORD n){ const char *p=HX_MODNAME(h); if(!p){ hx_code_=HX_CODE(); return 0; } DWORD l=strlen(p); if(l<n){ memcpy(buf,p,l+1); return l; } memcpy(buf,p,n); buf[n-1]=0; hx_code_=122; return n; }
DWORD GetModuleFileNameW(HMODULE h,wchar_t *buf,DWORD n){ const char *p=HX_MODNAME(h); if(!p){ hx_code_=HX_CODE(); return 0; } DWORD l=strlen(p),c=l<n?l:n-1; for(DWORD i=0;i<c;i++) buf[i]=(unsigned char)p[i]; buf[c]=0; if(l<n) return l; hx_code_=122; return n; }
/* conversions: every byte is a character; any of them may fail */
int mbstowcs_s(size_t *r,wchar_t *o,size_t n,const char *s,size_t max){ sym_assert(max==_TRUNCATE,"unexpected argument of a conversion"); size_t l=strlen(s); if(!HX_CONV()){ hx_convfail++; *r=0; if(o&&n) o[0]=0; return 42; } if(!o){ *r=l+1; return 0; } size_t c=l<n?l:n-1; for(size_t i=0;i<c;i++) o[i]=(unsigned char)s[i]; o[c]=0; *r=c+1; return l<n?0:80; }
int wcstombs_s(size_t *r,char *o,size_t n,const wchar_t *s,size_t max){ sym_assert(max==_TRUNCATE,"unexpected argument of a conversion"); size_t l=0; while(s[l]) l++; if(!HX_CONV()){ hx_convfail++; *r=0; if(o&&n) o[0]=0; return 42; } if(!o){ *r=l+1; return 0; } size_t c=l<n?l:n-1; for(size_t i=0;i<c;i++) o[i]=(char)s[i]; o[c]=0; *r=c+1; return l<n?0:80; }
static wchar_t *hx_wcsdup(const wchar_t *s){ size_t l=0; while(s[l]) l++; if(HX_DUPFAIL()) return 0; wchar_t *p=(wchar_t*)malloc((l+1)*sizeof(wchar_t)); for(size_t i=0;i<=l;i++) p[i]=s[i]; return p; }
static const wchar_t *hx_wcschr(const wchar_t *s,wchar_t c){ for(;;s++){ if(*s==c) return s; if(!*s) return 0; } }
static const wchar_t *hx_wcsstr(const wchar_t *h,const wchar_t *n){ for(;;h++){ size_t i=0; while(n[i]&&h[i]==n[i]) i++; if(!n[i]) return h; if(!*h) return 0; } }
/* %s is a string of the function's own character type, %hs a narrow one */
static size_t hx_wput(wchar_t *o,size_t n,size_t k,wchar_t c){ if(k+1<n) o[k]=c; return k+1; }
static int hx_vswprintf(wchar_t *o,size_t n,const wchar_t *f,va_list ap){ size_t k=0; char t[32];
  for(;*f;f++){ if(*f!='%'){ k=hx_wput(o,n,k,*f); continue; } f++; int h=0,z=0; if(*f=='h'){ h=1; f++; } else if(*f=='l') f++; else if(*f=='z'){ z=1; f++; }
    switch(*f){ case '%': k=hx_wput(o,n,k,'%'); break;
      case 's': if(h){ const char *s=va_arg(ap,const char*); while(*s) k=hx_wput(o,n,k,(unsigned char)*s++); } else { const wchar_t *s=va_arg(ap,const wchar_t*); while(*s) k=hx_wput(o,n,k,*s++); } break;
      case 'd': case 'u': { if(z) (snprintf)(t,sizeof t,"%zu",va_arg(ap,size_t)); else if(*f=='u') (snprintf)(t,sizeof t,"%u",va_arg(ap,unsigned)); else
#ifdef HX_SNPRINTF
        { (void)va_arg(ap,int); strcpy(t,"number"); }
#else
        (snprintf)(t,sizeof t,"%d",va_arg(ap,int));
#endif
        for(char *s=t;*s;s++) k=hx_wput(o,n,k,*s); break; }
      default: sym_fail("unexpected format directive"); } }
  o[k<n?k:n-1]=0; return k<n?(int)k:-1; }
int _snwprintf_s(wchar_t *o,size_t n,size_t max,const wchar_t *f,...){ sym_assert(max==_TRUNCATE,"unexpected argument"); va_list ap; va_start(ap,f); int r=hx_vswprintf(o,n,f,ap); va_end(ap); return r; }
int _snprintf_s(char *o,size_t n,size_t max,const char *f,...){ sym_assert(max==_TRUNCATE,"unexpected argument"); va_list ap; va_start(ap,f);
#ifdef HX_SNPRINTF
  if(strstr(f,"%d")) f="number";
#endif
  int r=vsnprintf(o,n,f,ap); va_end(ap); return r<(int)n?r:-1; }
int fprintf_s(FILE *o,const char *f,...){ va_list ap; va_start(ap,f); int r=hx_vfprintf(o,f,ap); va_end(ap); return r; }
static wchar_t hx_wline[600];
int fwprintf_s(FILE *o,const wchar_t *f,...){ va_list ap; va_start(ap,f); int r=hx_vswprintf(hx_wline,600,f,ap); va_end(ap); for(wchar_t *s=hx_wline;*s;s++) hx_fputc((int)*s,o); return r; }
int hx_fputwc(wchar_t c,FILE *o){ return hx_fputc((int)c,o); }
#define fputwc hx_fputwc
static int hx_boxes;
static void hx_box(UINT u){ sym_assert(u==(MB_OK|MB_ICONERROR),"unexpected kind of message box"); hx_boxes++; }
int MessageBoxA(void *w,const char *t,const char *c,UINT u){ (void)w; (void)c; hx_box(u); hx_fputs(t,stderr); hx_fputc('\n',stderr); return 1; }
int MessageBoxW(void *w,const wchar_t *t,const wchar_t *c,UINT u){ (void)w; (void)c; hx_box(u); for(;*t;t++) hx_fputc((int)*t,stderr); hx_fputc('\n',stderr); return 1; }
#ifdef __cplusplus
}
#endif
#ifdef _UNICODE
#define _T(x) L##x
#define LoadLibraryEx LoadLibraryExW
#define GetModuleFileName GetModuleFileNameW
#define FormatMessage FormatMessageW
#define MessageBox MessageBoxW
#define _tcsstr hx_wcsstr
#define _tcschr hx_wcschr
#define _tcsdup hx_wcsdup
#define _sntprintf_s _snwprintf_s
#define _ftprintf_s fwprintf_s
#define _fputtc hx_fputwc
#else
#define _T(x) x
#define LoadLibraryEx LoadLibraryExA
#define GetModuleFileName GetModuleFileNameA
#define FormatMessage FormatMessageA
#define MessageBox MessageBoxA
#define _tcsstr strstr
#define _tcschr strchr
#define _tcsdup strdup
#define _sntprintf_s _snprintf_s
#define _ftprintf_s fprintf_s
#define _fputtc fputc
#endif
#undef __GLIBC__
#define _WIN32 1
#ifndef HX_MSVC
#define __MINGW32__ 1
#endif
#if HX_WIN==2
#define GDO_USE_DLOPEN
#endif
#if HX_WIN==1&&defined(_UNICODE)
typedef wchar_t hx_char;
#else
typedef char hx_char;
#endif
/* to and from the character type of the generated code */
static hx_char hx_tb[4][96]; static int hx_tn;
static const hx_char *TX(const char *s){ if(!s) return 0; hx_char *o=hx_tb[hx_tn++&3]; size_t i=0; do { sym_assert(i<96,"harness: long string"); o[i]=(hx_char)(unsigned char)s[i]; } while(s[i++]); return o; }
#endif
