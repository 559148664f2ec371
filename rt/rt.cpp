// Model of the out-of-line parts of libstdc++ (gcc 13 headers) used by the code under test.
#include <string>
#include <string_view>
#include <vector>
#include <locale>
#include <ios>
#include <istream>
#include <ostream>
#include <streambuf>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <filesystem>
#include <stdexcept>
#include <system_error>
#include <functional>
#include <regex>
#include <new>
#include <typeinfo>
#include <memory>
#include <cstdarg>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <list>
#include <map>
#include <fcntl.h>
#include <cxxabi.h>
extern "C" {
#include "sym.h"
#include "vfs.h"
}
extern "C" void *memcpy(void*,const void*,size_t) noexcept;

// ---------------------------------------------------------------- explicit instantiations
template class std::basic_string<char>;
template class std::basic_ios<char>;
template class std::basic_streambuf<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_stringbuf<char>;
template class std::basic_istringstream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_stringstream<char>;
template class std::basic_filebuf<char>;
template class std::basic_ofstream<char>;
template class std::basic_ifstream<char>;
template class std::basic_fstream<char>;
namespace std {
template ostream& operator<<(ostream&,const char*); template ostream& operator<<(ostream&,char);
template ostream& operator<<(ostream&,const string&); template ostream& endl(ostream&); template ostream& flush(ostream&); template ostream& ends(ostream&);
template ostream& __ostream_insert(ostream&,const char*,streamsize);
template ostream& ostream::_M_insert(long); template ostream& ostream::_M_insert(unsigned long); template ostream& ostream::_M_insert(bool); template ostream& ostream::_M_insert(long long); template ostream& ostream::_M_insert(unsigned long long); template ostream& ostream::_M_insert(const void*);
template ostream& operator<<(ostream&,_Setfill<char>); template istream& getline(istream&,string&); template istream& ws(istream&);
template istream& operator>>(istream&,char&);
template istream& istream::_M_extract(long&); template istream& istream::_M_extract(bool&); template istream& istream::_M_extract(long long&); template istream& istream::_M_extract(unsigned long long&); template istream& istream::_M_extract(void*&); template istream& istream::_M_extract(unsigned long&); template istream& istream::_M_extract(unsigned short&); template istream& istream::_M_extract(unsigned int&);
template class num_put<char>; template class num_get<char>; template class numpunct<char>; template class collate<char>; template class time_put<char>; template class ctype_byname<char>; 
template class __timepunct<char>; template struct __timepunct_cache<char>; template struct __numpunct_cache<char>;
}

namespace std {
const nothrow_t nothrow{};
// ---------------------------------------------------------------- throw helpers
void __throw_bad_exception(){ throw bad_exception(); }
void __throw_bad_alloc(){ throw bad_alloc(); }
void __throw_bad_array_new_length(){ throw bad_array_new_length(); }
void __throw_bad_cast(){ throw bad_cast(); }
void __throw_bad_typeid(){ throw bad_typeid(); }
void __throw_logic_error(const char*s){ throw logic_error(s); }
void __throw_domain_error(const char*s){ throw domain_error(s); }
void __throw_invalid_argument(const char*s){ throw invalid_argument(s); }
void __throw_length_error(const char*s){ throw length_error(s); }
void __throw_out_of_range(const char*s){ throw out_of_range(s); }
void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); }
void __throw_runtime_error(const char*s){ throw runtime_error(s); }
void __throw_range_error(const char*s){ throw range_error(s); }
void __throw_overflow_error(const char*s){ throw overflow_error(s); }
void __throw_underflow_error(const char*s){ throw underflow_error(s); }
void __throw_ios_failure(const char*s){ throw ios_base::failure(s); }
void __throw_ios_failure(const char*s,int){ throw ios_base::failure(s); }
void __throw_system_error(int e){ throw system_error(error_code(e,generic_category())); }
void __throw_bad_function_call(){ throw bad_function_call(); }
void __throw_regex_error(regex_constants::error_type e){ throw regex_error(e); }
void __glibcxx_assert_fail(const char*file,int line,const char*fn,const char*cond) noexcept { fprintf(stderr,"%s:%d: Assertion failed: %s\n",file,line,cond?cond:""); abort(); }
void terminate() noexcept { abort(); }
void unexpected(){ abort(); }

// ---------------------------------------------------------------- exceptions
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static const char* dupz(const char*s,size_t n){ char*p=(char*)malloc(n+1); memcpy(p,s,n); p[n]=0; return p; }
__cow_string::__cow_string():_M_p(dupz("",0)){} 
__cow_string::__cow_string(const std::string&s):_M_p(dupz(s.data(),s.size())){}
__cow_string::__cow_string(const char*s,size_t n):_M_p(dupz(s,n)){}
__cow_string::__cow_string(const __cow_string&o) noexcept:_M_p(dupz(o._M_p,strlen(o._M_p))){}
__cow_string& __cow_string::operator=(const __cow_string&o) noexcept { if(this!=&o){ free((void*)_M_p); _M_p=dupz(o._M_p,strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string(){ free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&&o) noexcept:_M_p(dupz(o._M_p,strlen(o._M_p))){}
__cow_string& __cow_string::operator=(__cow_string&&o) noexcept { return *this=(const __cow_string&)o; }
logic_error::logic_error(const string&s):_M_msg(s){} logic_error::logic_error(const char*s):_M_msg(s,strlen(s)){} logic_error::logic_error(const logic_error&o) noexcept:exception(o),_M_msg(o._M_msg){} logic_error& logic_error::operator=(const logic_error&o) noexcept { _M_msg=o._M_msg; return *this; } logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(logic_error&&o) noexcept:exception(o),_M_msg(o._M_msg){} logic_error& logic_error::operator=(logic_error&&o) noexcept { _M_msg=o._M_msg; return *this; }
runtime_error::runtime_error(const string&s):_M_msg(s){} runtime_error::runtime_error(const char*s):_M_msg(s,strlen(s)){} runtime_error::runtime_error(const runtime_error&o) noexcept:exception(o),_M_msg(o._M_msg){} runtime_error& runtime_error::operator=(const runtime_error&o) noexcept { _M_msg=o._M_msg; return *this; } runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(runtime_error&&o) noexcept:exception(o),_M_msg(o._M_msg){} runtime_error& runtime_error::operator=(runtime_error&&o) noexcept { _M_msg=o._M_msg; return *this; }
#define SIMPLE(C,Bc) C::C(const string&s):Bc(s){} C::C(const char*s):Bc(s){} C::~C() noexcept {}
SIMPLE(domain_error,logic_error) SIMPLE(invalid_argument,logic_error) SIMPLE(length_error,logic_error) SIMPLE(out_of_range,logic_error) SIMPLE(range_error,runtime_error) SIMPLE(overflow_error,runtime_error) SIMPLE(underflow_error,runtime_error)
regex_error::regex_error(regex_constants::error_type e):runtime_error("regex_error"),_M_code(e){} regex_error::~regex_error() noexcept {}
system_error::~system_error() noexcept {}
namespace { struct gcat : error_category { const char*name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } }; gcat the_cat; }
error_category::~error_category() noexcept {} 
inline namespace _V2 { const error_category& generic_category() noexcept { return the_cat; } const error_category& system_category() noexcept { return the_cat; } }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i,*this); } bool error_category::equivalent(int i,const error_condition&c) const noexcept { return default_error_condition(i)==c; } bool error_category::equivalent(const error_code&c,int i) const noexcept { return c.category()==*this&&c.value()==i; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
__attribute__((used)) std::__cow_string error_category::_M_message(int) const { return __cow_string(); }
ios_base::failure::failure(const string&s):system_error(error_code(1,generic_category()),s){} ios_base::failure::failure(const string&s,const error_code&e):system_error(e,s){} ios_base::failure::failure(const char*s,const error_code&e):system_error(e,s){} ios_base::failure::~failure(){} const char* ios_base::failure::what() const throw() { return runtime_error::what(); }
const error_category& iostream_category() noexcept { return the_cat; }

// ---------------------------------------------------------------- containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base*p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next=_M_next; _M_next->_M_prev=_M_prev; }
void _List_node_base::_M_transfer(_List_node_base*f,_List_node_base*l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base*t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base*t=this; do{ std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; }while(t!=this); }
void _List_node_base::swap(_List_node_base&x,_List_node_base&y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
}
typedef _Rb_tree_node_base RB;
RB* _Rb_tree_increment(RB*x) throw() { if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { RB*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
const RB* _Rb_tree_increment(const RB*x) throw() { return _Rb_tree_increment(const_cast<RB*>(x)); }
RB* _Rb_tree_decrement(RB*x) throw() { if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ RB*y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { RB*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
const RB* _Rb_tree_decrement(const RB*x) throw() { return _Rb_tree_decrement(const_cast<RB*>(x)); }
// an unbalanced tree is a valid model: only order matters
void _Rb_tree_insert_and_rebalance(const bool left,RB*x,RB*p,RB&h) throw() { x->_M_parent=p; x->_M_left=x->_M_right=nullptr; x->_M_color=_S_black; if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
RB* _Rb_tree_rebalance_for_erase(RB*const z,RB&h) throw() { RB*&root=h._M_parent,*&lm=h._M_left,*&rm=h._M_right; RB*y=z,*x=nullptr,*xp=nullptr; if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(lm==z){ if(!z->_M_right) lm=z->_M_parent; else { RB*q=x; while(q->_M_left) q=q->_M_left; lm=q; } } if(rm==z){ if(!z->_M_left) rm=z->_M_parent; else { RB*q=x; while(q->_M_right) q=q->_M_right; rm=q; } } }
  (void)xp; return y; }
namespace __detail { 
static const unsigned long primes[]={2,5,11,23,47,97,199,409,823,1741,3739,7517,15173,30727,62233,126271};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for(unsigned long p:primes) if(p>=n){ _M_next_resize=p; return p; } return n|1; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ins) const { if(ne+ins>nb||nb<=1) return {true,_M_next_bkt(std::max<size_t>(ne+ins+1,nb*2))}; return {false,0}; }
}
size_t _Hash_bytes(const void*p,size_t n,size_t seed){ size_t h=seed; for(size_t i=0;i<n;i++) h=h*131+((const unsigned char*)p)[i]; return h; }

// ---------------------------------------------------------------- locale
namespace { struct cloc_s{int x;} ; }
__c_locale locale::facet::_S_get_c_locale(){ return nullptr; } const char* locale::facet::_S_get_c_name() throw() { return "C"; } __c_locale locale::facet::_S_clone_c_locale(__c_locale&) throw() { return nullptr; } void locale::facet::_S_destroy_c_locale(__c_locale&){} void locale::facet::_S_create_c_locale(__c_locale&c,const char*,__c_locale){ c=nullptr; }
locale::facet::~facet(){}
static size_t g_nid;
size_t locale::id::_M_id() const throw() { if(!_M_index) _M_index=++g_nid; return _M_index-1; }
// the per-type ids of templates are defined by the templates; those of the char specialisations here
locale::id ctype<char>::id; locale::id codecvt<char,char,mbstate_t>::id; 
static const locale::facet* g_facets[64]; static const locale::facet* g_caches[64]; static char* g_names[16]; 
alignas(locale::_Impl) static char g_implbuf[sizeof(locale::_Impl)]; static locale::_Impl* g_impl;
static locale::_Impl* classicImpl(){ return g_impl; }
locale::locale() throw():_M_impl(classicImpl()){} locale::locale(const locale&o) throw():_M_impl(o._M_impl){} locale::~locale() throw(){} const locale& locale::operator=(const locale&o) throw(){ _M_impl=o._M_impl; return *this; }
locale::locale(const char*):_M_impl(classicImpl()){}
alignas(locale) static char g_classic[sizeof(locale)];
const locale& locale::classic(){ return *(locale*)g_classic; } locale locale::global(const locale&l){ return l; } string locale::name() const { return "C"; } bool locale::operator==(const locale&) const throw() { return true; }
void locale::_Impl::_M_install_cache(const facet*c,size_t i){ g_caches[i]=c; }
locale::_Impl::~_Impl() throw(){}
// ctype<char>
extern "C" const unsigned short **__ctype_b_loc(void) noexcept; extern "C" int tolower(int) noexcept; extern "C" int toupper(int) noexcept;
const ctype_base::mask ctype_base::upper,ctype_base::lower,ctype_base::alpha,ctype_base::digit,ctype_base::xdigit,ctype_base::space,ctype_base::print,ctype_base::graph,ctype_base::cntrl,ctype_base::punct,ctype_base::alnum,ctype_base::blank;
const size_t ctype<char>::table_size;
const ctype_base::mask* ctype<char>::classic_table() throw() { return *__ctype_b_loc(); }
ctype<char>::ctype(const mask*t,bool d,size_t r):facet(r),_M_c_locale_ctype(nullptr),_M_del(d),_M_toupper(nullptr),_M_tolower(nullptr),_M_table(t?t:classic_table()),_M_widen_ok(0),_M_narrow_ok(0){ __builtin_memset(_M_widen,0,256); __builtin_memset(_M_narrow,0,256); }
ctype<char>::ctype(__c_locale,const mask*t,bool d,size_t r):ctype(t,d,r){}
ctype<char>::~ctype(){}
ctype_byname<char>::ctype_byname(const char*,size_t r):ctype<char>(0,false,r){} ctype_byname<char>::~ctype_byname(){}
char ctype<char>::do_toupper(char c) const { return ::toupper((unsigned char)c); } const char* ctype<char>::do_toupper(char*a,const char*b) const { for(;a<b;a++) *a=::toupper((unsigned char)*a); return b; }
char ctype<char>::do_tolower(char c) const { return ::tolower((unsigned char)c); } const char* ctype<char>::do_tolower(char*a,const char*b) const { for(;a<b;a++) *a=::tolower((unsigned char)*a); return b; }
void ctype<char>::_M_widen_init() const { for(int i=0;i<256;i++) _M_widen[i]=i; _M_widen_ok=1; }
void ctype<char>::_M_narrow_init() const { for(int i=0;i<256;i++) _M_narrow[i]=i; _M_narrow_ok=1; }
// codecvt
typedef codecvt<char,char,mbstate_t> CC;
codecvt_base::result CC::do_out(state_type&,const char*f,const char*,const char*&fn,char*t,char*,char*&tn) const { fn=f; tn=t; return noconv; }
codecvt_base::result CC::do_unshift(state_type&,char*t,char*,char*&tn) const { tn=t; return noconv; }
codecvt_base::result CC::do_in(state_type&,const char*f,const char*,const char*&fn,char*t,char*,char*&tn) const { fn=f; tn=t; return noconv; }
int CC::do_encoding() const throw() { return 1; } bool CC::do_always_noconv() const throw() { return true; } int CC::do_length(state_type&,const char*f,const char*e,size_t m) const { return std::min<size_t>(m,e-f); } int CC::do_max_length() const throw() { return 1; }
CC::codecvt(size_t r):__codecvt_abstract_base<char,char,mbstate_t>(r),_M_c_locale_codecvt(nullptr){} CC::codecvt(__c_locale,size_t r):CC(r){} CC::~codecvt(){}
// numpunct, collate, timepunct
template<> void numpunct<char>::_M_initialize_numpunct(__c_locale){ if(!_M_data) _M_data=new __numpunct_cache<char>; _M_data->_M_grouping=""; _M_data->_M_grouping_size=0; _M_data->_M_use_grouping=false; _M_data->_M_decimal_point='.'; _M_data->_M_thousands_sep=','; for(size_t i=0;i<__num_base::_S_oend;i++) _M_data->_M_atoms_out[i]=__num_base::_S_atoms_out[i]; for(size_t i=0;i<__num_base::_S_iend;i++) _M_data->_M_atoms_in[i]=__num_base::_S_atoms_in[i]; _M_data->_M_truename="true"; _M_data->_M_truename_size=4; _M_data->_M_falsename="false"; _M_data->_M_falsename_size=5; }
template<> numpunct<char>::~numpunct(){ delete _M_data; }
const char* __num_base::_S_atoms_out="-+xX0123456789abcdef0123456789ABCDEF"; const char* __num_base::_S_atoms_in="-+xX0123456789abcdefABCDEF";
bool __verify_grouping(const char*,size_t,const string&) throw() { return true; }
template<> int collate<char>::_M_compare(const char*a,const char*b) const throw() { int r=strcmp(a,b); return r<0?-1:r>0; }
template<> size_t collate<char>::_M_transform(char*t,const char*f,size_t n) const throw() { size_t l=strlen(f); for(size_t i=0;i<n;i++){ t[i]=f[i]; if(!f[i]) break; } return l; }
extern "C" size_t strftime(char*,size_t,const char*,const struct tm*) noexcept;
template<> void __timepunct<char>::_M_initialize_timepunct(__c_locale){ if(!_M_data) _M_data=new __timepunct_cache<char>; _M_data->_M_date_format="%m/%d/%y"; _M_data->_M_date_era_format="%m/%d/%y"; _M_data->_M_time_format="%H:%M:%S"; _M_data->_M_time_era_format="%H:%M:%S"; _M_data->_M_date_time_format=""; _M_data->_M_date_time_era_format=""; _M_data->_M_am="AM"; _M_data->_M_pm="PM"; _M_data->_M_am_pm_format="%I:%M:%S %p"; }
template<> void __timepunct<char>::_M_put(char*s,size_t n,const char*f,const tm*t) const throw() { size_t k=strftime(s,n,f,t); if(!k) s[0]=0; }
template<> void __convert_to_v(const char*,float&,ios_base::iostate&,const __c_locale&) throw() { sym_fail("harness: float parsing"); }
template<> void __convert_to_v(const char*,double&,ios_base::iostate&,const __c_locale&) throw() { sym_fail("harness: float parsing"); }
template<> void __convert_to_v(const char*,long double&,ios_base::iostate&,const __c_locale&) throw() { sym_fail("harness: float parsing"); }

// ---------------------------------------------------------------- ios_base
ios_base::ios_base() throw():_M_precision(),_M_width(),_M_flags(),_M_exception(),_M_streambuf_state(),_M_callbacks(0),_M_word_size(8),_M_word(_M_local_word){}
ios_base::~ios_base(){ }
void ios_base::_M_init() throw() { _M_precision=6; _M_width=0; _M_flags=skipws|dec; _M_ios_locale=locale(); }
void ios_base::_M_call_callbacks(event) throw() {} void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale&l) throw() { locale o=_M_ios_locale; _M_ios_locale=l; return o; }
void ios_base::_M_move(ios_base&r) noexcept { _M_precision=r._M_precision; _M_width=r._M_width; _M_flags=r._M_flags; _M_exception=r._M_exception; _M_streambuf_state=r._M_streambuf_state; _M_ios_locale=r._M_ios_locale; }
void ios_base::_M_swap(ios_base&) noexcept {} bool ios_base::sync_with_stdio(bool) { return true; } int ios_base::xalloc() throw() { return 0; } void ios_base::register_callback(event_callback,int){}
ios_base::_Words& ios_base::_M_grow_words(int,bool){ return _M_local_word[0]; }
const ios_base::fmtflags ios_base::boolalpha,ios_base::dec,ios_base::fixed,ios_base::hex,ios_base::internal,ios_base::left,ios_base::oct,ios_base::right,ios_base::scientific,ios_base::showbase,ios_base::showpoint,ios_base::showpos,ios_base::skipws,ios_base::unitbuf,ios_base::uppercase,ios_base::adjustfield,ios_base::basefield,ios_base::floatfield;
ios_base::Init::Init(){} ios_base::Init::~Init(){} 
template<> istream& getline(istream&in,string&s,char dl){ size_t k=0; ios_base::iostate e=ios_base::goodbit; istream::sentry cb(in,true); if(cb){ s.erase(); int c=in.rdbuf()->sgetc(); while(c!=-1&&(char)c!=dl){ s+=(char)c; k++; c=in.rdbuf()->snextc(); } if(c==-1) e|=ios_base::eofbit; else { k++; in.rdbuf()->sbumpc(); } } if(!k) e|=ios_base::failbit; if(e) in.setstate(e); return in; }
template<> istream& operator>>(istream&in,string&s){ size_t k=0; ios_base::iostate e=ios_base::goodbit; istream::sentry cb(in,false); if(cb){ s.erase(); streamsize w=in.width(); size_t n=w>0?(size_t)w:s.max_size(); int c=in.rdbuf()->sgetc(); while(k<n&&c!=-1&&!isspace(c)){ s+=(char)c; k++; c=in.rdbuf()->snextc(); } if(c==-1) e|=ios_base::eofbit; in.width(0); } if(!k) e|=ios_base::failbit; if(e) in.setstate(e); return in; }
template<> istream& istream::getline(char*b,streamsize n,char dl){ _M_gcount=0; ios_base::iostate e=ios_base::goodbit; sentry cb(*this,true); if(cb){ int c=rdbuf()->sgetc(); while(_M_gcount+1<n&&c!=-1&&(char)c!=dl){ *b++=(char)c; _M_gcount++; c=rdbuf()->snextc(); } if(c==-1) e|=ios_base::eofbit; else if((char)c==dl){ rdbuf()->sbumpc(); _M_gcount++; } else e|=ios_base::failbit; } if(n>0) *b=0; if(!_M_gcount) e|=ios_base::failbit; if(e) setstate(e); return *this; }
template<> istream& istream::ignore(streamsize n,int_type dl){ _M_gcount=0; sentry cb(*this,true); if(cb){ while(_M_gcount<n){ int c=rdbuf()->sbumpc(); if(c==-1){ setstate(ios_base::eofbit); break; } _M_gcount++; if(c==dl) break; } } return *this; }
template<> streamsize __copy_streambufs_eof(basic_streambuf<char>*in,basic_streambuf<char>*out,bool&eof){ streamsize r=0; eof=true; int c; while((c=in->sgetc())!=-1){ if(out->sputc(c)==-1){ eof=false; break; } r++; in->snextc(); } return r; }

// ---------------------------------------------------------------- files
__basic_file<char>::__basic_file(__c_lock*) throw():_M_cfile(nullptr),_M_cfile_created(false){} __basic_file<char>::~__basic_file(){ close(); }
__basic_file<char>* __basic_file<char>::open(const char*n,ios_base::openmode m,int){
  const char*c=nullptr; auto k=m&(ios_base::in|ios_base::out|ios_base::trunc|ios_base::app); bool nr=false;
#if __cplusplus>=202100L
  if(m&ios_base::noreplace) nr=true;
#endif
  if(k==ios_base::out||k==(ios_base::out|ios_base::trunc)) c=nr?"wx":"w"; else if(k==(ios_base::out|ios_base::app)||k==ios_base::app) c="a"; else if(k==ios_base::in) c="r"; else if(k==(ios_base::in|ios_base::out)) c="r+"; else if(k==(ios_base::in|ios_base::out|ios_base::trunc)) c=nr?"w+x":"w+"; else if(k==(ios_base::in|ios_base::out|ios_base::app)||k==(ios_base::in|ios_base::app)) c="a+";
  if(!c||is_open()) return nullptr; _M_cfile=fopen(n,c); if(!_M_cfile) return nullptr; _M_cfile_created=true; return this; }
__basic_file<char>* __basic_file<char>::close(){ if(!is_open()) return nullptr; int e=0; if(_M_cfile_created) e=fclose(_M_cfile); _M_cfile=nullptr; return e?nullptr:this; }
bool __basic_file<char>::is_open() const throw() { return _M_cfile!=nullptr; } int __basic_file<char>::fd() throw() { return 3; } __c_file* __basic_file<char>::file() throw() { return _M_cfile; }
__basic_file<char>* __basic_file<char>::sys_open(__c_file*,ios_base::openmode){ return nullptr; } __basic_file<char>* __basic_file<char>::sys_open(int,ios_base::openmode) throw() { return nullptr; }
streamsize __basic_file<char>::xsputn(const char*s,streamsize n){ size_t r=fwrite(s,1,n,_M_cfile); if(fflush(_M_cfile)) return 0; return r; }
streamsize __basic_file<char>::xsputn_2(const char*a,streamsize n,const char*b,streamsize m){ streamsize r=0; if(n) r+=xsputn(a,n); if(r==n&&m) r+=xsputn(b,m); return r; }
streamsize __basic_file<char>::xsgetn(char*s,streamsize n){ streamsize r=fread(s,1,n,_M_cfile); if(r==0&&ferror(_M_cfile)) return -1; return r; }
streamoff __basic_file<char>::seekoff(streamoff o,ios_base::seekdir w) throw() { if(fseek(_M_cfile,o,w==ios_base::beg?0:w==ios_base::cur?1:2)) return -1; return ftell(_M_cfile); }
int __basic_file<char>::sync(){ return fflush(_M_cfile); } streamsize __basic_file<char>::showmanyc(){ return 0; }

// ---------------------------------------------------------------- standard streams
namespace { struct capbuf : streambuf { FILE*f; capbuf(FILE*x):f(x){} int_type overflow(int_type c) override { return c==-1?0:fputc(c,f); } streamsize xsputn(const char*s,streamsize n) override { return fwrite(s,1,n,f); } int sync() override { return fflush(f); }
   int_type underflow() override { int c=getc(f); if(c!=-1) ungetc(c,f); return c; } int_type uflow() override { return getc(f); } }; }
}
alignas(16) char rt_cout[sizeof(std::ostream)] asm("_ZSt4cout"); alignas(16) char rt_cerr[sizeof(std::ostream)] asm("_ZSt4cerr"); alignas(16) char rt_clog[sizeof(std::ostream)] asm("_ZSt4clog"); alignas(16) char rt_cin[sizeof(std::istream)] asm("_ZSt3cin");
namespace {
alignas(16) char b0[sizeof(std::capbuf)],b1[sizeof(std::capbuf)],b2[sizeof(std::capbuf)];
void rt_streams(){ 
  auto*o=new(b0) std::capbuf(stdout); auto*e=new(b1) std::capbuf(stderr); auto*i=new(b2) std::capbuf(stdin);
  new(rt_cout) std::ostream(o); auto*ce=new(rt_cerr) std::ostream(e); new(rt_clog) std::ostream(e); auto*ci=new(rt_cin) std::istream(i); ce->setf(std::ios_base::unitbuf); ci->tie((std::ostream*)rt_cout); ce->tie((std::ostream*)rt_cout); }
template<class F> void inst(F*f){ std::g_facets[F::id._M_id()]=f; }
struct Boot { Boot(){
  using namespace std; g_impl=(locale::_Impl*)g_implbuf; g_impl->_M_refcount=1000; g_impl->_M_facets=g_facets; g_impl->_M_facets_size=64; g_impl->_M_caches=g_caches; g_impl->_M_names=g_names; g_names[0]=(char*)"C";
  new(g_classic) locale();
  inst(new ctype<char>(0,false,1)); inst(new codecvt<char,char,mbstate_t>(1)); inst(new num_put<char>(1)); inst(new num_get<char>(1)); inst(new numpunct<char>(1)); inst(new collate<char>(1)); inst(new __timepunct<char>(1)); inst(new time_put<char>(1));
  { auto*c=new __numpunct_cache<char>(2); c->_M_cache(locale::classic()); g_caches[numpunct<char>::id._M_id()]=c; }
  rt_streams(); } };
Boot boot __attribute__((init_priority(101)));
}
extern "C" void rt_reset_streams(){ rt_streams(); }

// ---------------------------------------------------------------- filesystem
namespace std::filesystem {
struct path::_List::_Impl { int n; int cap; _Cmpt* a; };
void path::_List::_Impl_deleter::operator()(_Impl*p) const noexcept { p=(_Impl*)((uintptr_t)p&~(uintptr_t)3); if(p){ for(int i=0;i<p->n;i++) p->a[i].~_Cmpt(); free(p->a); free(p); } }
path::_List::_List():_M_impl((_Impl*)(uintptr_t)_Type::_Filename){}
void path::_List::type(_Type t) noexcept { auto p=(uintptr_t)_M_impl.get()&~(uintptr_t)3; _M_impl.release(); _M_impl.reset((_Impl*)(p|(unsigned char)t)); }
static path::_List::_Impl* raw(const path::_List&l){ return (path::_List::_Impl*)((uintptr_t)l._M_impl.get()&~(uintptr_t)3); }
int path::_List::size() const noexcept { auto*p=raw(*this); return p?p->n:0; } bool path::_List::empty() const noexcept { return size()==0; } int path::_List::capacity() const noexcept { auto*p=raw(*this); return p?p->cap:0; }
void path::_List::clear(){ auto*p=raw(*this); if(p){ for(int i=0;i<p->n;i++) p->a[i].~_Cmpt(); p->n=0; } }
path::_List::iterator path::_List::begin() noexcept { return raw(*this)->a; } path::_List::iterator path::_List::end() noexcept { return raw(*this)->a+raw(*this)->n; }
path::_List::const_iterator path::_List::begin() const noexcept { return raw(*this)->a; } path::_List::const_iterator path::_List::end() const noexcept { return raw(*this)->a+raw(*this)->n; }
path::_Cmpt& path::_List::front() noexcept { return *begin(); } path::_Cmpt& path::_List::back() noexcept { return end()[-1]; } const path::_Cmpt& path::_List::front() const noexcept { return *begin(); } const path::_Cmpt& path::_List::back() const noexcept { return end()[-1]; }
static void setMulti(path::_List&l,int n,path::_Cmpt*a){ auto*p=(path::_List::_Impl*)malloc(sizeof(path::_List::_Impl)); p->n=n; p->cap=n; p->a=a; l._M_impl.reset(p); }
path::_List::_List(const _List&o):_M_impl(nullptr){ auto*p=raw(o); if(p&&p->n){ auto*a=(_Cmpt*)malloc(sizeof(_Cmpt)*p->n); for(int i=0;i<p->n;i++) new(a+i) _Cmpt(p->a[i]); setMulti(*this,p->n,a); } else _M_impl.reset((_Impl*)(uintptr_t)(unsigned char)o.type()); }
path::_List& path::_List::operator=(const _List&o){ if(this!=&o){ _List t(o); _M_impl.swap(t._M_impl); } return *this; }
void path::_M_split_cmpts(){
  const std::string&s=_M_pathname; 
  auto simple=[&](_Type t){ _M_cmpts._M_impl.reset((_List::_Impl*)(uintptr_t)(unsigned char)t); };
  if(s.empty()){ simple(_Type::_Filename); return; }
  size_t n=s.size(),i=0; struct C{size_t b,l; _Type t;}; C c[64]; int k=0;
  if(s[0]=='/'){ c[k++]={0,1,_Type::_Root_dir}; while(i<n&&s[i]=='/') i++; }
  while(i<n){ size_t b=i; while(i<n&&s[i]!='/') i++; if(k>=62) sym_fail("harness: path too long"); c[k++]={b,i-b,_Type::_Filename}; if(i<n){ while(i<n&&s[i]=='/') i++; if(i==n) c[k++]={n,0,_Type::_Filename}; } }
  if(k==1){ if(c[0].t==_Type::_Root_dir){ simple(_Type::_Root_dir); return; } if(c[0].l==n){ simple(_Type::_Filename); return; } }
  auto*a=(_Cmpt*)malloc(sizeof(_Cmpt)*k); for(int j=0;j<k;j++) new(a+j) _Cmpt(basic_string_view<char>(s).substr(c[j].b,c[j].l),c[j].t,c[j].b); setMulti(_M_cmpts,k,a); }
path::path(basic_string_view<char> s,_Type t):_M_pathname(s){ _M_cmpts.type(t); }
path& path::operator=(const path&o){ if(this!=&o){ _M_pathname=o._M_pathname; _M_cmpts=o._M_cmpts; } return *this; }
path::_Cmpt::_Cmpt(basic_string_view<char> s,_Type t,size_t pos):path(s,t),_M_pos(pos){}
static path mk(const std::string&s){ return path(s); }
static void setp(path&p,std::string s){ p._M_pathname=std::move(s); p._M_split_cmpts(); }
path& path::operator/=(const path&o){ if(o.is_absolute()||empty()){ if(o.is_absolute()||!o.empty()) *this=o; return *this; } std::string s=_M_pathname; if(s.back()!='/') s+='/'; s+=o._M_pathname; setp(*this,s); return *this; }
void path::_M_append(basic_string_view<char> s){ *this/=path(std::string(s)); } void path::_M_concat(basic_string_view<char> s){ std::string t=_M_pathname; t+=s; setp(*this,t); } path& path::operator+=(const path&o){ _M_concat(o._M_pathname); return *this; }
path& path::remove_filename(){ std::string s=_M_pathname; while(!s.empty()&&s.back()!='/') s.pop_back(); setp(*this,s); return *this; }
path& path::replace_filename(const path&o){ remove_filename(); return *this/=o; }
pair<const std::string*,size_t> path::_M_find_extension() const noexcept { const std::string*s=nullptr; if(_M_type()==_Type::_Filename) s=&_M_pathname; else if(_M_type()==_Type::_Multi&&!_M_cmpts.empty()){ const auto&c=_M_cmpts.back(); if(c._M_type()==_Type::_Filename) s=&c._M_pathname; } if(s){ size_t z=s->size(); if(z){ if(z<=2&&(*s)[0]=='.') return {s,std::string::npos}; size_t p=s->rfind('.'); return {s,p?p:string::npos}; } } return {}; }
path& path::replace_extension(const path&r){ auto ext=_M_find_extension(); std::string s=_M_pathname; if(ext.first&&ext.second!=std::string::npos) s.resize(s.size()-(ext.first->size()-ext.second)); if(!r.empty()&&r.native()[0]!='.') s+='.'; s+=r.native(); setp(*this,s); return *this; }
int path::compare(const path&o) const noexcept { int r=_M_pathname.compare(o._M_pathname); return r; } int path::compare(basic_string_view<char> v) const noexcept { return _M_pathname.compare(v); }
path path::root_name() const { return path(); } path path::root_directory() const { return has_root_directory()?path("/"):path(); } path path::root_path() const { return root_directory(); }
bool path::has_root_directory() const noexcept { return !_M_pathname.empty()&&_M_pathname[0]=='/'; } bool path::has_root_name() const noexcept { return false; } bool path::has_root_path() const noexcept { return has_root_directory(); }
path path::parent_path() const { const std::string&s=_M_pathname; size_t n=s.size(); while(n>0&&s[n-1]!='/') n--; while(n>1&&s[n-1]=='/') n--; return path(s.substr(0,n)); }
bool path::has_parent_path() const noexcept { return _M_pathname.find('/')!=std::string::npos; } bool path::has_filename() const noexcept { return !_M_pathname.empty()&&_M_pathname.back()!='/'; }
path path::relative_path() const { size_t i=0; while(i<_M_pathname.size()&&_M_pathname[i]=='/') i++; return path(_M_pathname.substr(i)); } bool path::has_relative_path() const noexcept { return !relative_path().empty(); }
path path::lexically_normal() const { char o[VFS_PATH]; vfs_norm(_M_pathname.c_str(),o); std::string s=o; if(s.empty()) s="."; return path(s); }
std::string path::_S_convert_loc(const char*a,const char*b,const locale&){ return std::string(a,b); }
struct filesystem_error::_Impl { std::string w; path a,b; };
filesystem_error::filesystem_error(const std::string&s,error_code e):system_error(e,s),_M_impl(std::__make_shared<_Impl>()){} filesystem_error::filesystem_error(const std::string&s,const path&,error_code e):filesystem_error(s,e){} filesystem_error::filesystem_error(const std::string&s,const path&,const path&,error_code e):filesystem_error(s,e){} filesystem_error::~filesystem_error(){} const char* filesystem_error::what() const noexcept { return system_error::what(); } const path& filesystem_error::path1() const noexcept { return _M_impl->a; } const path& filesystem_error::path2() const noexcept { return _M_impl->b; }
static error_code ec(int e){ return error_code(e,generic_category()); }
static file_status stat1(const path&p,bool follow,int&err){ char r[VFS_PATH]; const char*s=p.c_str(); size_t l=strlen(s); err=0; if(!l){ err=2; return file_status(file_type::not_found); } if(l>=VFS_PATH-1){ err=36; return file_status(file_type::none); } 
  if(strcmp(s,"/dev/full")==0||strcmp(s,"/dev/null")==0||strcmp(s,"/dev/stdout")==0) return file_status(file_type::character,perms::all);
  bool slash=s[l-1]=='/'; if(follow||slash){ if(vfs_resolve(s,r)){ err=40; return file_status(file_type::none); } } else vfs_norm(s,r); if(r[0]==0||strcmp(r,"/")==0||strcmp(r,"..")==0) return file_status(file_type::directory,perms::all);
  int po=vfs_parent_ok(r); if(po){ err=po==1?2:20; return file_status(file_type::not_found); } vnode*v=vfs_get(r); if(!v){ err=2; return file_status(file_type::not_found); } if(slash&&v->kind!=VFS_DIR){ err=20; return file_status(file_type::not_found); }
  return file_status(v->kind==VFS_DIR?file_type::directory:v->kind==VFS_LINK?file_type::symlink:file_type::regular,perms::all); }
file_status symlink_status(const path&p,error_code&e) noexcept { int err; auto s=stat1(p,false,err); if(err) e=ec(err); else e.clear(); return s; } file_status symlink_status(const path&p){ int err; auto s=stat1(p,false,err); if(s.type()==file_type::none) throw filesystem_error("cannot get status",p,ec(err)); return s; }
file_status status(const path&p,error_code&e) noexcept { int err; auto s=stat1(p,true,err); if(err) e=ec(err); else e.clear(); return s; } file_status status(const path&p){ int err; auto s=stat1(p,true,err); if(s.type()==file_type::none) throw filesystem_error("cannot get status",p,ec(err)); return s; }
bool remove(const path&p,error_code&e) noexcept { int err; auto s=stat1(p,false,err); if(s.type()==file_type::not_found){ e.clear(); return false; } if(::remove(p.c_str())){ e=ec(errno); return false; } e.clear(); return true; }
bool remove(const path&p){ error_code e; bool r=filesystem::remove(p,e); if(e) throw filesystem_error("cannot remove",p,e); return r; }
bool create_directory(const path&p,error_code&e) noexcept { int err; auto s=stat1(p,true,err); if(s.type()==file_type::directory){ e.clear(); return false; } if(s.type()!=file_type::not_found){ e=ec(17); return false; } char r[VFS_PATH]; vfs_norm(p.c_str(),r); if(vfs_get(r)){ e=ec(17); return false; } int po=vfs_parent_ok(r); if(po){ e=ec(po==1?2:20); return false; } vnode*v=vfs_new(r,VFS_DIR); v->created=1; e.clear(); return true; }
bool create_directory(const path&p){ error_code e; bool r=create_directory(p,e); if(e) throw filesystem_error("cannot create directory",p,e); return r; }
bool create_directories(const path&p,error_code&e){ if(p.empty()){ e=ec(22); return false; } char n[VFS_PATH]; vfs_norm(p.c_str(),n); if(!n[0]) { e.clear(); return false; } bool made=false; size_t i=n[0]=='/'?1:0; for(;;){ while(n[i]&&n[i]!='/') i++; std::string s(n,i); made=create_directory(path(s),e); if(e) return false; if(!n[i]) break; i++; } return made; }
bool create_directories(const path&p){ error_code e; bool r=create_directories(p,e); if(e) throw filesystem_error("cannot create directories",p,e); return r; }
void rename(const path&a,const path&b,error_code&e) noexcept { if(::rename(a.c_str(),b.c_str())) e=ec(errno); else e.clear(); } void rename(const path&a,const path&b){ error_code e; rename(a,b,e); if(e) throw filesystem_error("cannot rename",a,b,e); }
uintmax_t file_size(const path&p,error_code&e) noexcept { char r[VFS_PATH]; if(vfs_resolve(p.c_str(),r)){ e=ec(40); return -1; } vnode*v=vfs_get(r); if(!v){ e=ec(2); return -1; } e.clear(); return v->len; } uintmax_t file_size(const path&p){ error_code e; auto r=file_size(p,e); if(e) throw filesystem_error("cannot get file size",p,e); return r; }
path current_path(){ return path("/cwd"); } path current_path(error_code&e){ e.clear(); return path("/cwd"); } path absolute(const path&p){ return p.is_absolute()?p:path("/cwd")/p; }
bool equivalent(const path&a,const path&b,error_code&e) noexcept { char r[VFS_PATH],q[VFS_PATH]; e.clear(); return !vfs_resolve(a.c_str(),r)&&!vfs_resolve(b.c_str(),q)&&strcmp(r,q)==0; } bool equivalent(const path&a,const path&b){ error_code e; return equivalent(a,b,e); }
bool is_empty(const path&p,error_code&e){ return file_size(p,e)==0; }
}
// local statics, type infos of the fundamental types

extern "C" { void __cxa_bad_cast(){ std::__throw_bad_cast(); } void __cxa_throw_bad_array_new_length(){ std::__throw_bad_array_new_length(); } }
#include <mutex>
namespace std { __thread void *__once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy(void){ if(auto f=__once_call){ __once_call=nullptr; f(); } } }
