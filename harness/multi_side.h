// one of the two loaders: LO, UP: its prefixes, SF: its format, SIDE: 0 or 1
#define L(n) CAT(LO,n)
#define N(n) CAT(n,SIDE)
#if SIDE==0
#if SF<2
#define P0 AA_RAWPTR_foo
#define P1 AA_RAWPTR_one
#elif SF==2
#define P0 aa_hndl.AA_PTR_foo
#define P1 aa_hndl.AA_PTR_one
#elif SF==3
#define P0 aa::AA_PTR_foo
#define P1 aa::AA_PTR_one
#else
#define P0 pl0->list[0].ptr.foo
#define P1 pl0->list[0].ptr.one
#endif
#define SX 1
#define HASFOO 1
#else
#if SF<2
#define P0 BB_RAWPTR_foo
#define P1 BB_RAWPTR_uno
#elif SF==2
#define P0 bb_hndl.BB_PTR_foo
#define P1 bb_hndl.BB_PTR_uno
#elif SF==3
#define P0 bb::BB_PTR_foo
#define P1 bb::BB_PTR_uno
#else
#define P0 pl1->list[0].ptr.foo
#define P1 pl1->list[0].ptr.uno
#endif
#define SX 2
#define HASFOO SHARED
#endif
static const char *N(nm)(void){ static char b[3]; unsigned k=sym_choice(2,"name"); memset(b,0,sizeof b); if(k){ sym_bytes(b,1,"file"); sym_assume(b[0]!=0); b[1]=SIDE?'b':'a'; } return b; }
#if SF==0
static void N(start)(void){}
static void N(end)(void){ L(_force_free_lib)(); }
static void N(snap)(struct state *s){
#if HASFOO
  s->ptr[0]=(void*)P0;
#endif
  s->ptr[SX]=(void*)P1; s->loaded=L(_lib_is_loaded)(); s->all=L(_all_symbols_loaded)(); s->no=L(_no_symbols_loaded)(); s->any=L(_any_symbol_loaded)(); txt(s->err,L(_last_error)()); }
#ifdef AUTO
#define OPS 6
#else
#define OPS 5
#endif
static void N(do)(unsigned op){ switch(op){
  case 0: L(_load_lib_name)(N(nm)()); break; case 1: L(_load_all_symbols)(); break; case 2: L(_free_lib)(); break; case 3: L(_load_lib_and_symbols)(); break;
  case 4: L(_enable_autorelease)(); break;
#ifdef AUTO
  case 5: { memset(calls,0,sizeof calls); int r;
#if SIDE==0
    r=CAT(UP,_WRAP_foo)(7);
#else
    r=CAT(UP,_WRAP_uno)(7);
#endif
    sym_assert(r==8&&arg==7,"another result"); for(int l=0;l<hx_nlib;l++) sym_assert(calls[l]==0||owner[l]==SIDE,"the function of the other library is called"); sym_cover("call"); break; }
#endif
  } }
#elif SF==1
alignas(LO::dl) static char N(room)[sizeof(LO::dl)]; static LO::dl *N(d);
static void N(start)(void){ N(d)=new(N(room)) LO::dl; }
static void N(end)(void){ N(d)->free(true); N(d)->~dl(); }
static void N(snap)(struct state *s){
#if HASFOO
  s->ptr[0]=(void*)P0;
#endif
  s->ptr[SX]=(void*)P1; s->loaded=LO::dl::lib_loaded(); s->all=N(d)->all_symbols_loaded(); s->no=N(d)->no_symbols_loaded(); s->any=N(d)->any_symbol_loaded(); txt(s->err,N(d)->error().c_str()); s->x=(const void*)(size_t)N(d)->filename().size(); }
#ifdef AUTO
#define OPS 5
#else
#define OPS 4
#endif
static void N(do)(unsigned op){ switch(op){
  case 0: N(d)->load(N(nm)()); break; case 1: N(d)->load_all_symbols(); break; case 2: N(d)->free(); break; case 3: N(d)->load_lib_and_symbols(); break;
#ifdef AUTO
  case 4: { memset(calls,0,sizeof calls); int r;
#if SIDE==0
    r=CAT(UP,_WRAP_foo)(7);
#else
    r=CAT(UP,_WRAP_uno)(7);
#endif
    sym_assert(r==8&&arg==7,"another result"); for(int l=0;l<hx_nlib;l++) sym_assert(calls[l]==0||owner[l]==SIDE,"the function of the other library is called"); sym_cover("call"); break; }
#endif
  } }
#elif SF==2 || SF==3
#if SF==2
#define MLOAD(n) L(_load_library_and_symbols)(n)
#define MFREE L(_free_library)
#else
#define MLOAD(n) try { LO::load_library_and_symbols(n); } catch(const LO::LibraryError&){} catch(const LO::SymbolError&){}
#define MFREE LO::free_library
#endif
static void N(start)(void){}
static void N(end)(void){ MFREE(); }
static void N(snap)(struct state *s){
#if HASFOO
  s->ptr[0]=(void*)P0;
#endif
  s->ptr[SX]=(void*)P1; }
#define OPS 2
static void N(do)(unsigned op){ if(op==0) { MLOAD(N(nm)()); } else MFREE(); }
#else
static CAT(LO,_plugin_t) *N(pl);
static void N(start)(void){}
static void N(end)(void){ L(_release_plugins)(N(pl)); }
static void N(snap)(struct state *s){ s->x=N(pl); s->loaded=N(pl)!=0; if(N(pl)){ s->all=(int)N(pl)->num; s->any=N(pl)->list[0].handle!=0; 
#if HASFOO
  s->ptr[0]=(void*)P0;
#endif
  s->ptr[SX]=(void*)P1; txt(s->err,N(pl)->list[0].filename); } }
#define OPS 2
static void N(do)(unsigned op){ if(op==0){ const char *f[2]; f[0]=N(nm)(); f[1]=0; if(N(pl)) L(_release_plugins)(N(pl)); N(pl)=L(_load_plugins)(f,2); } else { if(N(pl)) L(_release_plugins)(N(pl)); N(pl)=0; } }
#endif
enum { N(NOPS)=OPS };
#undef OPS
#undef L
#undef P0
#undef P1
#undef N
#undef SX
#undef HASFOO
#undef MLOAD
#undef MFREE
