// the symbol sets of the loader harnesses; SET is also passed to the generator (jobs.py)
#if SET==0   /* common prefix, names that are prefixes of each other, an array */
#define SYMS(X) X(0,foo) X(1,foobar) X(2,foo_obj) X(3,foo_arr)
#define NSYM 4
#define FUNCS(X) X(0,foo) X(1,foobar)
#define OBJSYM(X) X(2,foo_obj) X(3,foo_arr)
#elif SET==1 /* no common prefix */
#define SYMS(X) X(0,foo) X(1,bar) X(2,baz)
#define NSYM 3
#define FUNCS(X) X(0,foo) X(1,bar)
#define OBJSYM(X) X(2,baz)
#elif SET==2 /* one symbol */
#define SYMS(X) X(0,f)
#define NSYM 1
#define FUNCS(X) X(0,f)
#define OBJSYM(X)
#elif SET==3 /* nothing but objects */
#define SYMS(X) X(0,ob1) X(1,ob2)
#define NSYM 2
#define FUNCS(X)
#define OBJSYM(X) X(0,ob1) X(1,ob2)
#elif SET==4 /* functions of many kinds, for wrappers */
#define SYMS(X) X(0,add) X(1,put) X(2,mix) X(3,cb)
#define NSYM 4
#elif SET==5 /* variable arguments */
#define SYMS(X) X(0,vsum) X(1,add)
#define NSYM 2
#elif SET==6 /* structures by value */
#define SYMS(X) X(0,flip) X(1,blow)
#define NSYM 2
#endif
