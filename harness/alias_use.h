// The names as a program uses them; UF(n), UO(n): a function and an object. S: what they must hold then.
#define NUSE 9
static const char *const uses[NUSE]={"call","callptr","int","string","array","struct","pointer","names","grid"};
static void use(unsigned op){
  struct mem *S=&sh[l_]; int v=symint("v"); int i=sym_range(0,3,"index"); memset(fcall,0,sizeof fcall); memset(vcall,0,sizeof vcall);
  switch(op){
  case 0: { fret=symint("ret"); p_=other+(i&1); int r=UF(fn)(v,p_); sym_assert(lastf()==1&&!vcall[l_],"the function is not called exactly once"); sym_assert(r==fret,"another result"); sym_assert(fa==v&&fb==p_,"other arguments"); break; }
  case 1: { int (*f)(int,char*)=UF(fn); fret=symint("ret"); int r=1+f(v,other)*2; sym_assert(lastf()==1,"the function is not called exactly once"); sym_assert(r==1+fret*2&&fa==v&&fb==other,"other arguments or result");
    void (*const tab[])(pair_t)={UF(vf)}; pair_t a; a.a=v; a.b=i; tab[0](a); (UF(vf))(a); lastf(); sym_assert(vcall[l_]==2&&va==v&&vb==i,"called through a table"); break; }
  case 2: ADDR(&UO(num),&re[l_].num_,"address of the int"); UO(num)=v; S->num_=v; x_=UO(num)++; y_=S->num_++; sym_assert(x_==y_,"post increment"); UO(num)+=i; S->num_+=i; --UO(num); --S->num_; x_=5-UO(num)*2; sym_assert(x_==5-S->num_*2&&sizeof UO(num)==4,"value of the int"); break;
  case 3: ADDR(&UO(str),&re[l_].str_,"address of the string"); sym_assert(UO(str)==S->str_,"the string"); { int o=(int)(S->str_-re[l_].buf); UO(str)[i]=(char)v; S->buf[o+i]=(char)v; if(o==0){ x_=*UO(str)++; sym_assert(x_==S->buf[0],"the character"); S->str_++; } } break;
  case 4: ADDR(UO(arr),re[l_].arr_,"address of the array"); sym_assert(sizeof UO(arr)==sizeof re[0].arr_,"size of the array"); sym_assert(UO(arr)[i]==S->arr_[i],"element of the array"); UO(arr)[i]=v; S->arr_[i]=v; UO(arr)[3]++; S->arr_[3]++; ADDR(&UO(arr)[1],&re[l_].arr_[1],"address of an element"); break;
  case 5: { pair_t t=UO(st); sym_assert(t.a==S->st_.a&&t.b==S->st_.b,"the structure"); UO(st).a=v; S->st_.a=v; UO(st).b--; S->st_.b--; (&UO(st))->b+=i; S->st_.b+=i; if(v==5){ t.a=1; UO(st)=t; S->st_=t; } break; }
  case 6: UO(ps)->a=v; S->sp[0].a=v; sym_assert(UO(ps)[0].b==S->sp[0].b&&(*UO(ps)).a==v,"through the pointer"); break;
  case 7: UO(names)[i&1][1]=(char)v; S->buf[4*(i&1)+1]=(char)v; sym_assert(*UO(names)[1]==S->buf[4],"a string of the array"); sym_assert(sizeof UO(names)==2*sizeof(char*),"size of the array"); UO(names)[0]=other; S->names_[0]=other; UO(names)[0]=re[l_].buf; S->names_[0]=re[l_].buf; break;
  case 8: sym_assert(sizeof UO(grid)==24,"size of the array of arrays"); UO(grid)[1][i&1]=v; S->grid_[1][i&1]=v; UO(grid)[0][2]--; S->grid_[0][2]--; break;
  } }
