// windows onto hashed bucket lists and sequenced rings: configurations and their link structure
#pragma once
struct Cell{V prior,next;bool has=true;};
typedef std::vector<int> Grp; // element ids; a negative id is a run of one or more unseen elements
struct Bk{int cell=0;std::vector<Grp> g;int openL=0,openR=0;}; // openL/openR: further unseen groups before/after
struct Win{std::vector<Bk> b;int farL=0,farR=0,end=0,last=0;std::vector<int> empty;
  static V far(int i,int k){return V::ptr(FAR,i*4+k);} // 1: first unseen, 2: last unseen, 3: bucket or border that may be a visible one
  static V fst(int e){return e<0?far(-e,1):V::node(e);}
  static V lst(int e){return e<0?far(-e,2):V::node(e);}
  static void inner(const Grp&g,std::map<int,Cell>&m,V pred,V succ){
    size_t n=g.size();
    for(size_t i=0;i<n;++i){
      if(g[i]<0)continue;Cell c;
      if(i==0){c.prior=pred;c.next=n==1?succ:fst(g[1]);}
      else if(n==2){c.prior=V::node(g[0]);c.next=succ;}
      else{
        c.prior=i==1?V::node(g[n-1]):lst(g[i-1]);
        c.next=i==n-1?succ:i==n-2?V::node(g[0]):fst(g[i+1]);
      }
      m[g[i]]=c;
    }
  }
  std::map<int,Cell> cells()const{
    std::map<int,Cell> m;V h=V::node(0);V pred=farL?far(farL,2):h;
    for(size_t i=0;i<b.size();++i){
      auto&k=b[i];if(k.openL)pred=far(k.openL,2);
      m[k.cell]=Cell{k.openL?far(k.openL,1):fst(k.g[0][0]),V(),false};
      for(size_t j=0;j<k.g.size();++j){
        V succ=j+1<k.g.size()?V::node(k.g[j+1][0]):k.openR?far(k.openR,1):i+1<b.size()?V::node(b[i+1].cell):farR?far(farR,3):V::node(end);
        inner(k.g[j],m,pred,succ);pred=V::node(k.g[j].back());
      }
    }
    m[0]=Cell{b.empty()?h:farR?far(farR,2):b.back().openR?far(b.back().openR,2):V::node(b.back().g.back().back()),b.empty()?V::node(end):farL?far(farL,3):V::node(b[0].cell)};
    if(last){m[0].prior=V::node(last);m[last]=Cell{far(last,2),V::node(end)};} // the last element of the list, when it is not in the window
    m[end]=Cell{h,V(),false};
    for(int e:empty)m[e]=Cell{V::nil(),V(),false};
    return m;
  }
};
struct ListWorld{
  long op,on; // offsets of the prior and next links
  std::vector<std::function<void(State&,const V*)>> post;
  std::vector<std::function<bool(int,int)>> eq;
  std::map<int,Str> role;
  V cdata;bool has_cdata=false;
};
static std::map<int,Cell> ringCells(const Grp&g){
  std::map<int,Cell> m;size_t n=g.size();
  for(size_t i=0;i<n;++i)if(g[i]>=0)m[g[i]]=Cell{Win::lst(g[(i+n-1)%n]),Win::fst(g[(i+1)%n])};
  return m;
}
