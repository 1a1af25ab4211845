// abstract heap operations: case splits (unfolding), folding, canonical form
#pragma once
#include "shape.hpp"
struct Lay{long par=-1,left=-1,right=-1,size=-1,col=-1;bool comp=false;};
struct Heap{
  Lay L;int ctr=0;long obl=0;
  int fresh(){return ++ctr;}
  Lin fs(){return Lin::sym(fresh());}
  // ---- facts
  static bool nonneg(const Lin&l){if(l.c<0)return false;for(auto&p:l.t)if(p.second<0)return false;return true;} // counts are not negative
  static bool geq0(State&S,const Lin&l){if(nonneg(l))return true;for(auto&c:S.cons)if(nonneg(l-c))return true;return false;}
  void feas(State&S){
    for(auto&l:S.cons)if(nonneg(Lin(-1)-l))throw Infeasible();
    for(auto&l:S.neq)if(l.isC()&&l.c==0)throw Infeasible();
    for(size_t i=0;i<S.cons.size();++i)for(size_t j=0;j<i;++j){Lin s=S.cons[i]+S.cons[j];if(nonneg(Lin(-1)-s))throw Infeasible();}
  }
  void addCons(State&S,Lin l){
    for(auto&n:S.neq){Lin d=n-l,e=n+l;if((d.isC()&&d.c==0)||(e.isC()&&e.c==0)){l.c-=1;break;}}
    S.cons.push_back(l);feas(S);
  }
  void addNeq(State&S,Lin n){
    for(auto&l:S.cons){Lin d=n-l,e=n+l;if((d.isC()&&d.c==0)||(e.isC()&&e.c==0))l.c-=1;}
    S.neq.push_back(n);feas(S);
  }
  void fixBh(State&S){
    for(bool again=true;again;){again=false;
      std::vector<Bh> all;for(auto&p:S.trees)all.push_back(p.second.bh);for(auto&p:S.segs){all.push_back(p.second.hb);all.push_back(p.second.tb);}
      for(auto&b:all)if(b.c<0){if(!b.s)throw Infeasible();S.substBh(b.s,Bh{fresh(),-b.c});again=true;break;}
    }
  }
  void unifyBh(State&S,Bh a,Bh b){
    if(a==b)return;if(a.s==b.s)throw Infeasible();
    if(!a.s||(b.s&&a.c<b.c))std::swap(a,b); // a.s := b + (b.c - a.c), and symbols are not negative
    int d=b.c-a.c;
    if(!b.s){if(d<0)throw Infeasible();S.substBh(a.s,Bh{0,d});}
    else if(d<0){int f=fresh();S.substBh(b.s,Bh{f,-d});S.substBh(a.s,Bh{f,0});}
    else S.substBh(a.s,Bh{b.s,d});
    fixBh(S);
  }
  void unifySz(State&S,Lin a,Lin b){
    Lin d=a-b;if(d.isC()){if(d.c)throw Infeasible();return;}
    for(auto&p:d.t)if(p.second==1||p.second==-1){int s=p.first;long k=p.second;Lin r=d;r.t.erase(s);Lin e;if(k==1)e-=r;else e=r;S.substSz(s,e);feas(S);return;}
  }
  void genLin(State&S,Lin e){ // rename the sum e to one symbol
    if(e.isC()||(e.t.size()==1&&e.c==0&&e.t.begin()->second==1))return;
    for(auto&p:e.t)if(p.second==1){int s=p.first;Lin r=e;r.t.erase(s);S.substSz(s,fs()-r);return;}
  }
  // ---- expected order
  int posE(State&S,IK k,int id){for(size_t i=0;i<S.E.size();++i)if(S.E[i].k==k&&S.E[i].id==id)return i;return -1;}
  void replE(State&S,IK k,int id,std::vector<Item> by){int p=posE(S,k,id);if(p<0)return;S.E.erase(S.E.begin()+p);S.E.insert(S.E.begin()+p,by.begin(),by.end());}
  bool contig(State&S,const std::vector<Item>&v){ // the items occur next to each other
    int p=posE(S,v[0].k,v[0].id);if(p<0||p+v.size()>S.E.size())return false;
    for(size_t i=0;i<v.size();++i)if(!(S.E[p+i]==v[i]))return false;return true;
  }
  void collapse(State&S,const std::vector<Item>&v,Item by){int p=posE(S,v[0].k,v[0].id);S.E.erase(S.E.begin()+p,S.E.begin()+p+v.size());S.E.insert(S.E.begin()+p,by);}
  // ---- fields
  V&fld(State&S,int n,long o){return S.nodes[n].f[o];}
  int color(State&S,int n){V v=fld(S,n,L.comp?L.par:L.col);if(L.comp)return v.k==P?v.c:-1;return v.k==INT&&v.n.isC()?(int)v.n.c:-1;}
  void setColor(State&S,int n,int c){if(L.comp)fld(S,n,L.par).c=c;else fld(S,n,L.col)=V::i(c);}
  void setPar(State&S,int n,V p){int c=L.comp?fld(S,n,L.par).c:0;p.c=c;fld(S,n,L.par)=p;}
  V par(State&S,int n){V v=fld(S,n,L.par);v.c=0;return v;}
  int mkNode(State&S,int col,V p){int n=fresh();auto&N=S.nodes[n];N.f[L.par]=p;N.f[L.par].c=0;setColor(S,n,col);N.f[L.left]=V::nil();N.f[L.right]=V::nil();if(L.size>=0)N.f[L.size]=V();return n;}
  int mkTree(State&S,V p,Bh b,int col,bool nn=false){int t=fresh();Tree T;T.par=p;T.par.c=0;T.bh=b;T.col=col;T.nn=nn||col==0;T.sz=fs();S.trees[t]=T;return t;}
  // ---- case splits on subtrees
  void treeNull(State&S,int t){
    Tree T=S.trees[t];if(T.nn)throw Infeasible();
    unifyBh(S,T.bh,Bh{0,0});unifySz(S,S.trees[t].sz,Lin(0));
    S.trees.erase(t);S.substP(TREE,t,V::nil());replE(S,ITREE,t,{});feas(S);
  }
  int treeNode(State&S,int t,int col){
    Tree T=S.trees[t];if(T.col!=2&&T.col!=col)throw Infeasible();
    int n=mkNode(S,col,T.par);Bh cb=T.bh;cb.c-=col;
    int l=mkTree(S,V::node(n),cb,col?2:1),r=mkTree(S,V::node(n),cb,col?2:1);
    fld(S,n,L.left)=V::ptr(TREE,l);fld(S,n,L.right)=V::ptr(TREE,r);
    Lin sum=Lin(1)+S.trees[l].sz+S.trees[r].sz;
    if(L.size>=0)fld(S,n,L.size)=V::i(sum);
    unifySz(S,S.trees[t].sz,sum);
    S.trees.erase(t);S.substP(TREE,t,V::node(n));replE(S,ITREE,t,{{ITREE,l},{INODE,n},{ITREE,r}});fixBh(S);feas(S);return n;
  }
  // ---- case splits on paths
  void segEmpty(State&S,int k){
    Seg g=S.segs[k];if(g.ne||g.pre==2||g.post==2)throw Infeasible();
    unifyBh(S,g.hb,g.tb);unifySz(S,S.segs[k].psz,Lin(0));unifySz(S,S.segs[k].qsz,Lin(0));
    g=S.segs[k];S.segs.erase(k);S.substP(UP,k,g.par);S.substP(TOP,k,g.hole);replE(S,IPRE,k,{});replE(S,IPOST,k,{});feas(S);
  }
  int segBelow(State&S,int k,int side,int col){ // the node just above the hole; side: which child the hole is
    Seg g=S.segs[k];if(g.botc!=2&&g.botc!=col)throw Infeasible();if((side?g.pre:g.post)==0)throw Infeasible();
    int q=mkNode(S,col,V::nil());int s=mkTree(S,V::node(q),g.hb,col?2:1);
    S.substP(UP,k,V::node(q));
    V up=V::ptr(UP,k);setPar(S,q,up);
    fld(S,q,side?L.right:L.left)=S.segs[k].hole;fld(S,q,side?L.left:L.right)=V::ptr(TREE,s);
    Seg&h=S.segs[k];h.hole=V::node(q);h.hb.c+=col;h.botc=col?2:1;h.ne=(h.topc!=2&&col!=h.topc);
    if(L.size>=0){Lin qs=h.hs+S.trees[s].sz+Lin(1);fld(S,q,L.size)=V::i(qs);S.segs[k].hs=qs;}
    Lin nw=fs(),old=side?h.psz:h.qsz;
    if(side){if(h.pre==2)h.pre=1;h.psz=nw;replE(S,IPRE,k,{{IPRE,k},{ITREE,s},{INODE,q}});}
    else{if(h.post==2)h.post=1;h.qsz=nw;replE(S,IPOST,k,{{INODE,q},{ITREE,s},{IPOST,k}});}
    unifySz(S,old,nw+S.trees[s].sz+Lin(1));
    fixBh(S);feas(S);return q;
  }
  int segAbove(State&S,int k,int side,int col){ // the topmost node of the path
    Seg g=S.segs[k];if(g.topc!=2&&g.topc!=col)throw Infeasible();if((side?g.pre:g.post)==0)throw Infeasible();
    Bh b=g.tb;b.c-=col;
    int q=mkNode(S,col,g.par);int s=mkTree(S,V::node(q),b,col?2:1);
    S.substP(TOP,k,V::node(q));
    fld(S,q,side?L.right:L.left)=V::ptr(TOP,k);fld(S,q,side?L.left:L.right)=V::ptr(TREE,s);
    Seg&h=S.segs[k];h.par=V::node(q);h.tb=b;h.topc=col?2:1;h.ne=(h.botc!=2&&col!=h.botc);
    Lin nw=fs(),old=side?h.psz:h.qsz;
    if(side){if(h.pre==2)h.pre=1;h.psz=nw;replE(S,IPRE,k,{{ITREE,s},{INODE,q},{IPRE,k}});}
    else{if(h.post==2)h.post=1;h.qsz=nw;replE(S,IPOST,k,{{IPOST,k},{INODE,q},{ITREE,s}});}
    unifySz(S,old,nw+S.trees[s].sz+Lin(1));
    Seg&h2=S.segs[k];
    if(L.size>=0)fld(S,q,L.size)=V::i(h2.hs+h2.psz+h2.qsz+S.trees[s].sz+Lin(1));
    fixBh(S);feas(S);return q;
  }
  // ---- splits
  template<class F> void alt(State&S,Split&sp,F f){State T=S;try{f(T);feas(T);sp.alts.push_back(T);}catch(Infeasible&){}}
  [[noreturn]] void splitNull(State&S,int t){Split sp;alt(S,sp,[&](State&T){treeNull(T,t);});alt(S,sp,[&](State&T){T.trees[t].nn=true;});throw sp;}
  [[noreturn]] void splitTree(State&S,int t){Split sp;alt(S,sp,[&](State&T){treeNull(T,t);});for(int c=0;c<2;++c)alt(S,sp,[&](State&T){treeNode(T,t,c);});throw sp;}
  [[noreturn]] void splitEmpty(State&S,int k){Split sp;alt(S,sp,[&](State&T){segEmpty(T,k);});alt(S,sp,[&](State&T){T.segs[k].ne=true;});throw sp;}
  [[noreturn]] void splitUp(State&S,int k){Split sp;alt(S,sp,[&](State&T){segEmpty(T,k);});for(int d=0;d<2;++d)for(int c=0;c<2;++c)alt(S,sp,[&](State&T){segBelow(T,k,d,c);});throw sp;}
  [[noreturn]] void splitTop(State&S,int k){Split sp;alt(S,sp,[&](State&T){segEmpty(T,k);});for(int d=0;d<2;++d)for(int c=0;c<2;++c)alt(S,sp,[&](State&T){segAbove(T,k,d,c);});throw sp;}
  void prePostEmpty(State&S,int k,bool post){Seg&g=S.segs[k];int&st=post?g.post:g.pre;if(st==2)throw Infeasible();st=0;unifySz(S,post?S.segs[k].qsz:S.segs[k].psz,Lin(0));replE(S,post?IPOST:IPRE,k,{});feas(S);}
  [[noreturn]] void splitPP(State&S,int k,bool post){Split sp;alt(S,sp,[&](State&T){prePostEmpty(T,k,post);});alt(S,sp,[&](State&T){Seg&g=T.segs[k];(post?g.post:g.pre)=2;g.ne=true;});throw sp;}
  // is an item certainly there (1), certainly absent (0)? otherwise splits
  bool present(State&S,Item i,bool ask){ // ask: split when unknown; otherwise throws Fail
    if(i.k==INODE)return true;
    if(i.k==ITREE){if(S.trees[i.id].nn)return true;if(ask)splitNull(S,i.id);return true;}
    int st=i.k==IPOST?S.segs[i.id].post:S.segs[i.id].pre;if(st==2)return true;if(ask)splitPP(S,i.id,i.k==IPOST);return true;
  }
  bool certain(State&S,Item i){if(i.k==INODE)return true;if(i.k==ITREE)return S.trees[i.id].nn;return (i.k==IPOST?S.segs[i.id].post:S.segs[i.id].pre)==2;}
  // node n is the first (dir 0) or last (dir 1) expected element
  bool endIs(State&S,int n,int dir){
    if(S.E.empty())return false;
    bool in=false;for(auto&i:S.E)if(i.k==INODE&&i.id==n)in=true;if(!in)return false;
    for(size_t j=0;j<S.E.size();++j){Item i=S.E[dir?S.E.size()-1-j:j];if(i.k==INODE)return i.id==n;present(S,i,true);return false;}
    return false;
  }
  [[noreturn]] void splitEnd(State&S,int dir){
    if(S.E.empty())throw Fail{"end of an empty sequence"};
    Item i=dir?S.E.back():S.E.front();PB b=dir?LE:FE;Split sp;
    if(i.k==INODE){alt(S,sp,[&](State&T){T.substP(b,0,V::node(i.id));});throw sp;}
    present(S,i,true);
    if(i.k!=ITREE)throw Fail{"the first or last element lies in the unexplored part of a path"};
    int t=i.id;
    for(int c=0;c<2;++c)alt(S,sp,[&](State&T){
      Tree X=T.trees[t];int n=mkNode(T,c,V::nil());int k=fresh();Seg g;g.par=X.par;g.hole=V::node(n);g.hb=Bh{0,c};g.tb=X.bh;g.topc=X.col;g.botc=c?2:1;g.ne=(X.col!=2&&X.col!=c);
      int r=mkTree(T,V::node(n),Bh{0,0},c?2:1);
      Lin nw=fs();g.hs=L.size>=0?Lin(1)+T.trees[r].sz:Lin(0);g.pre=dir?1:0;g.post=dir?0:1;g.psz=dir?nw:Lin(0);g.qsz=dir?Lin(0):nw;
      setPar(T,n,V::ptr(UP,k));fld(T,n,dir?L.left:L.right)=V::ptr(TREE,r);
      T.segs[k]=g;if(L.size>=0)fld(T,n,L.size)=V::i(g.hs);
      unifySz(T,T.trees[t].sz,nw+T.segs[k].hs);
      T.trees.erase(t);T.substP(TREE,t,V::ptr(TOP,k));
      if(dir)replE(T,ITREE,t,{{IPRE,k},{ITREE,r},{INODE,n}});else replE(T,ITREE,t,{{INODE,n},{ITREE,r},{IPOST,k}});
      T.substP(b,0,V::node(n));
    });
    throw sp;
  }
  // ---- pointers
  int deref(State&S,const V&p){
    if(p.k!=P)throw Fail{"dereference of an undefined pointer"};
    switch(p.b){
      case NODE:case MEM:return p.id;
      case NIL:throw Viol{"null dereference","a null link is followed"};
      case TREE:splitTree(S,p.id);
      case TOP:splitTop(S,p.id);
      case UP:splitUp(S,p.id);
      case FE:splitEnd(S,0);
      case LE:splitEnd(S,1);
      default:throw Fail{"dereference outside the analysed part"};
    }
  }
  int quickEq(State&S,const V&a,const V&b){ // 1 equal, 0 different, -1 unknown
    if(a.b==b.b&&(a.b==NIL||a.id==b.id)&&a.off==b.off)return 1;
    if(a.b==TOP&&b.b==NODE){auto&g=S.segs[a.id];if(g.ne)return 0;return quickEq(S,g.hole,b)==0?0:-1;}
    if(a.b==UP&&b.b==NODE){auto&g=S.segs[a.id];if(g.ne)return 0;return quickEq(S,g.par,b)==0?0:-1;}
    if(b.b==TOP||b.b==UP){if(a.b==NODE)return quickEq(S,b,a);}
    if(a.b==NODE&&(b.b==NODE||b.b==NIL||b.b==TREE))return 0;
    if(b.b==NODE&&(a.b==NIL||a.b==TREE))return 0;
    return -1;
  }
  bool eq(State&S,V a,V b){
    if(a.k!=P||b.k!=P)throw Fail{"comparison of an undefined pointer"};
    if(a.c!=b.c){if(a.c<0||b.c<0)throw Fail{"comparison of an undefined pointer"};return false;}
    int q=quickEq(S,a,b);if(q>=0)return q;
    if(a.b==FAR&&b.b==FAR&&a.id/4==b.id/4)throw Fail{"comparison of unseen elements"};
    auto cell=[&](const V&v){return v.b!=NODE||S.nodes[v.id].f.size()<2;}; // elements are never buckets
    if((a.b==FAR&&a.id%4==3&&cell(b))||(b.b==FAR&&b.id%4==3&&cell(a)))throw Fail{"comparison of unseen buckets"};
    if(a.b==MEM||b.b==MEM||a.b==FAR||b.b==FAR)return false;
    if(b.b==NIL)std::swap(a,b);
    if(a.b==NIL){
      if(b.b==TREE){if(S.trees[b.id].nn)return false;splitNull(S,b.id);}
      if(b.b==TOP){if(S.segs[b.id].ne||S.segs[b.id].hole.b==NODE)return false;splitEmpty(S,b.id);}
      return false;
    }
    if(a.b==FE||a.b==LE||b.b==FE||b.b==LE){
      if(b.b==FE||b.b==LE)std::swap(a,b);
      int dir=a.b==LE;
      if(b.b==NODE)return b.id==0?false:endIs(S,b.id,dir);
      if(b.b==TREE)splitTree(S,b.id);if(b.b==TOP)splitTop(S,b.id);if(b.b==UP)splitUp(S,b.id);
      if(b.b==FE||b.b==LE)splitEnd(S,dir);
      return false;
    }
    if(a.b==TREE&&b.b==TREE){if(S.trees[a.id].nn||S.trees[b.id].nn)return false;splitNull(S,a.id);}
    if(a.b==NODE)std::swap(a,b);
    if((a.b==TOP||a.b==UP)&&b.b==NODE)splitEmpty(S,a.id);
    if(a.b==TREE)std::swap(a,b);
    if(b.b==TREE){if(a.b==TOP&&!S.segs[a.id].ne)splitEmpty(S,a.id);return false;}
    if(a.b==TOP&&b.b==TOP){if(!S.segs[a.id].ne)splitEmpty(S,a.id);if(!S.segs[b.id].ne)splitEmpty(S,b.id);return false;}
    if(a.b==TOP&&!S.segs[a.id].ne)splitEmpty(S,a.id);if(b.b==TOP&&!S.segs[b.id].ne)splitEmpty(S,b.id);
    if(a.b==UP)splitUp(S,a.id);if(b.b==UP)splitUp(S,b.id);
    return false;
  }
  // ---- folding
  std::set<int> pinN,pinT,pinS,inT,inN,inS;
  void pins(State&S){
    pinN.clear();pinT.clear();pinS.clear();for(auto&p:S.nodes)if(!p.second.nm.empty())pinN.insert(p.first);
    auto f=[&](const V&v){if(v.k!=P)return;if(v.b==NODE)pinN.insert(v.id);else if(v.b==TREE)pinT.insert(v.id);else if(v.b==TOP||v.b==UP)pinS.insert(v.id);};
    for(auto&p:S.env){f(p.second);for(auto&a:p.second.agg)f(a);}for(auto&p:S.mem)for(auto&q:p.second)f(q.second);
    for(int d=0;d<2;++d){V&h=fld(S,0,d?L.right:L.left);if(h.isNode()&&h.id){if(!S.E.empty()&&(d?S.E.back():S.E.front())==Item{INODE,h.id})h=V::ptr(d?LE:FE,0);else pinN.insert(h.id);}}
  }
  void reach(State&S,V v,int d=0){
    if(v.k!=P||d>200)return;
    if(v.b==NODE){if(v.id==0||!inN.insert(v.id).second)return;reach(S,fld(S,v.id,L.left),d+1);reach(S,fld(S,v.id,L.right),d+1);}
    else if(v.b==TREE)inT.insert(v.id);
    else if(v.b==TOP){if(!inS.insert(v.id).second)return;reach(S,S.segs[v.id].hole,d+1);}
  }
  void reach(State&S){inN.clear();inT.clear();inS.clear();reach(S,par(S,0));}
  // the only link to v, as the value the child's parent pointer must have
  bool owner(State&S,const V&v,V&own,V**slot=nullptr){
    int c=0;auto t=[&](V&x,V o){V y=x;y.c=0;if(y.k==P&&y.b==v.b&&y.id==v.id){++c;own=o;if(slot)*slot=&x;}};
    t(fld(S,0,L.par),V::node(0));
    for(int n:inN){t(fld(S,n,L.left),V::node(n));t(fld(S,n,L.right),V::node(n));}
    for(int k:inS)t(S.segs[k].hole,V::ptr(UP,k));
    return c==1;
  }
  int upRefs(State&S,int n){ // parent links to n
    int c=0;for(int m:inN){V p=par(S,m);if(p.isNode()&&p.id==n)++c;}
    for(int t:inT)if(S.trees[t].par.isNode()&&S.trees[t].par.id==n)++c;
    for(int k:inS)if(S.segs[k].par.isNode()&&S.segs[k].par.id==n)++c;
    return c;
  }
  void forget(State&S,PB b,int id){S.eachV([&](V&v){if(v.k==P&&v.b==b&&v.id==id)v=V();});}
  bool leaf(State&S,int n,const V&v,Bh&b,int&col,Lin&sz,int&t){ // a null link or a well linked subtree
    t=0;if(v.k!=P)return false;if(v.b==NIL){b=Bh{0,0};col=1;sz=Lin(0);return true;}
    if(v.b!=TREE||pinT.count(v.id))return false;auto&T=S.trees[v.id];if(!T.par.isNode()||T.par.id!=n||T.par.off)return false;
    b=T.bh;col=T.col;sz=T.sz;t=v.id;V o;return owner(S,v,o);
  }
  bool szOk(State&S,int n,Lin e){if(L.size<0)return true;V s=fld(S,n,L.size);return s.k==INT&&s.n==e;}
  bool tryTree(State&S,int n){
    V a=fld(S,n,L.left),b=fld(S,n,L.right);Bh ba,bb;int ca,cb,ta,tb;Lin sa,sb;
    if(!leaf(S,n,a,ba,ca,sa,ta)||!leaf(S,n,b,bb,cb,sb,tb))return false;
    int c=color(S,n);if(c<0||!(ba==bb)||(c==0&&(ca!=1||cb!=1)))return false;
    if(!szOk(S,n,Lin(1)+sa+sb))return false;
    V own;V*slot=nullptr;if(!owner(S,V::node(n),own,&slot)||!own.same(par(S,n)))return false;
    if(upRefs(S,n)!=(ta!=0)+(tb!=0))return false;
    std::vector<Item> v;if(ta)v.push_back({ITREE,ta});v.push_back({INODE,n});if(tb)v.push_back({ITREE,tb});
    if(!contig(S,v))return false;
    int t=fresh();Tree T;T.par=own;T.par.c=0;T.bh=ba;T.bh.c+=c;T.col=c;T.nn=true;T.sz=Lin(1)+sa+sb;
    {int cc=slot->c;*slot=V::ptr(TREE,t);slot->c=cc;}
    collapse(S,v,{ITREE,t});S.trees.erase(ta);S.trees.erase(tb);S.nodes.erase(n);S.trees[t]=T;
    forget(S,NODE,n);if(ta)forget(S,TREE,ta);if(tb)forget(S,TREE,tb);genLin(S,S.trees[t].sz);return true;
  }
  bool trySeg(State&S,int n){
    for(int side=0;side<2;++side){
      V c=fld(S,n,side?L.right:L.left),o=fld(S,n,side?L.left:L.right);Bh bo;int co,to;Lin so;
      if(c.k!=P||!((c.b==NODE&&c.id&&inN.count(c.id))||(c.b==TOP&&!pinS.count(c.id))))continue;
      if(!leaf(S,n,o,bo,co,so,to))continue;
      int col=color(S,n);if(col<0||(col==0&&co!=1))continue;
      V cp=c.b==NODE?par(S,c.id):S.segs[c.id].par;if(!cp.isNode()||cp.id!=n)continue;
      V own;V*slot=nullptr;if(!owner(S,V::node(n),own,&slot)||!own.same(par(S,n)))continue;
      V dummy;if(!owner(S,c,dummy))continue;
      if(upRefs(S,n)!=1+(to!=0))continue;
      std::vector<Item> v;if(side){if(to)v.push_back({ITREE,to});v.push_back({INODE,n});}else{v.push_back({INODE,n});if(to)v.push_back({ITREE,to});}
      if(!contig(S,v))continue;
      Lin hs;if(L.size>=0){V s=fld(S,n,L.size);if(s.k!=INT)continue;hs=s.n-so-Lin(1);}
      int k=fresh();Seg g;g.par=own;g.par.c=0;g.hole=c;g.hole.c=0;g.hb=bo;g.tb=bo;g.tb.c+=col;g.topc=g.botc=col;g.ne=true;g.hs=hs;
      g.pre=side?2:0;g.post=side?0:2;(side?g.psz:g.qsz)=so+Lin(1);
      {int cc=slot->c;*slot=V::ptr(TOP,k);slot->c=cc;}
      if(c.b==NODE)setPar(S,c.id,V::ptr(UP,k));else S.segs[c.id].par=V::ptr(UP,k);
      collapse(S,v,{side?IPRE:IPOST,k});S.trees.erase(to);S.nodes.erase(n);S.segs[k]=g;
      forget(S,NODE,n);if(to)forget(S,TREE,to);genLin(S,so+Lin(1));return true;
    }
    return false;
  }
  bool tryMerge(State&S,int k1){
    Seg a=S.segs[k1];if(a.hole.k!=P||a.hole.b!=TOP)return false;int k2=a.hole.id;Seg b=S.segs[k2];
    if(pinS.count(k1)||pinS.count(k2)||!b.par.is(UP)||b.par.id!=k1)return false;
    if(!(a.hb==b.tb)||(L.size>=0&&!(a.hs==b.hs+b.psz+b.qsz)))return false;
    if(!(a.botc==1||b.topc==1))return false;
    std::vector<Item> pr,po;if(a.pre)pr.push_back({IPRE,k1});if(b.pre)pr.push_back({IPRE,k2});if(b.post)po.push_back({IPOST,k2});if(a.post)po.push_back({IPOST,k1});
    if(pr.size()==2&&!contig(S,pr))return false;if(po.size()==2&&!contig(S,po))return false;
    if(pr.size())collapse(S,pr,{IPRE,k1});if(po.size())collapse(S,po,{IPOST,k1});
    Seg&g=S.segs[k1];auto j=[](int x,int y){return x==y?x:2;};
    g.topc=a.ne?a.topc:j(a.topc,b.topc);g.botc=b.ne?b.botc:j(a.botc,b.botc);g.ne=a.ne||b.ne;
    g.pre=a.pre==2||b.pre==2?2:(a.pre||b.pre?1:0);g.post=a.post==2||b.post==2?2:(a.post||b.post?1:0);
    g.hb=b.hb;g.hs=b.hs;g.hole=b.hole;g.psz=a.psz+b.psz;g.qsz=a.qsz+b.qsz;
    S.segs.erase(k2);S.substP(UP,k2,V::ptr(UP,k1));forget(S,TOP,k2);S.segs[k1].hole=b.hole;
    genLin(S,S.segs[k1].psz);genLin(S,S.segs[k1].qsz);return true;
  }
  bool tryClose(State&S,int k){ // a path that ends in a subtree is a subtree
    Seg g=S.segs[k];if(pinS.count(k)||g.hole.k!=P)return false;int t=0;Tree T;T.bh=Bh{0,0};T.col=1;
    if(g.hole.b==TREE){t=g.hole.id;if(pinT.count(t))return false;T=S.trees[t];if(!T.par.is(UP)||T.par.id!=k)return false;}
    else if(g.hole.b!=NIL)return false;
    if(!(T.bh==g.hb)||(L.size>=0&&!(T.sz==g.hs))||!(T.col==1||g.botc==1))return false;
    std::vector<Item> v;if(g.pre)v.push_back({IPRE,k});if(t)v.push_back({ITREE,t});if(g.post)v.push_back({IPOST,k});
    if(v.empty()||!contig(S,v))return false;
    V own;V*slot=nullptr;if(!owner(S,V::ptr(TOP,k),own,&slot)||!own.same(g.par))return false;
    int n=fresh();Tree R;R.par=own;R.par.c=0;R.bh=g.tb;R.col=g.ne?g.topc:(g.topc==T.col?T.col:2);R.nn=g.ne||T.nn;R.sz=g.psz+g.qsz+T.sz;
    {int cc=slot->c;*slot=V::ptr(TREE,n);slot->c=cc;}
    collapse(S,v,{ITREE,n});S.trees.erase(t);S.segs.erase(k);S.trees[n]=R;forget(S,UP,k);forget(S,TOP,k);if(t)forget(S,TREE,t);genLin(S,S.trees[n].sz);return true;
  }
  // black heights are only related inside a connected piece: rebase every piece without null links
  void rebase(State&S){
    struct C{bool null=false;std::vector<Bh*> b;};std::vector<C> cs(1);std::set<int> seen;
    std::function<void(V,int)> go=[&](V v,int c){
      if(v.k!=P)return;
      if(v.b==NIL)cs[c].null=true;
      else if(v.b==NODE){if(v.id==0||!seen.insert(v.id).second)return;go(fld(S,v.id,L.left),c);go(fld(S,v.id,L.right),c);}
      else if(v.b==TREE){if(seen.insert(v.id).second)cs[c].b.push_back(&S.trees[v.id].bh);}
      else if(v.b==TOP){if(!seen.insert(v.id).second)return;cs[c].b.push_back(&S.segs[v.id].tb);cs.push_back(C());int d=cs.size()-1;cs[d].b.push_back(&S.segs[v.id].hb);go(S.segs[v.id].hole,d);}
    };
    go(par(S,0),0);
    for(auto&c:cs){if(c.null||c.b.empty())continue;int s=c.b[0]->s,m=c.b[0]->c;bool ok=true;for(auto*b:c.b){if(b->s!=s)ok=false;m=std::min(m,b->c);}
      if(!ok)continue;int f=fresh();for(auto*b:c.b){b->s=f;b->c-=m-std::min(m,1);}}
  }
  Lin sizeOf(State&S,V v,bool&ok,int d=0){ // number of nodes below a link
    if(v.k!=P||d>100){ok=false;return Lin();}
    if(v.b==NIL)return Lin(0);if(v.b==TREE)return S.trees[v.id].sz;
    if(v.b==NODE&&v.id)return Lin(1)+sizeOf(S,fld(S,v.id,L.left),ok,d+1)+sizeOf(S,fld(S,v.id,L.right),ok,d+1);
    if(v.b==TOP){auto&g=S.segs[v.id];return g.psz+g.qsz+sizeOf(S,g.hole,ok,d+1);}
    ok=false;return Lin();
  }
  void fold(State&S){
    for(bool ch=true;ch;){ch=false;pins(S);reach(S);
      for(int n:inN)if(!pinN.count(n)&&(tryTree(S,n)||trySeg(S,n))){ch=true;break;}
      if(!ch)for(int k:inS)if(tryMerge(S,k)||tryClose(S,k)){ch=true;break;}
    }
    // facts about sizes that survive: i>=0 and i<size of a live subtree
    std::vector<Lin> keep;
    auto have=[&](const Lin&l){for(auto&c:S.cons)if(c==l)return true;return false;};
    for(auto&p:S.env)if(p.second.k==INT&&!p.second.n.isC()){Lin i=p.second.n;if(have(i))keep.push_back(i);
      for(auto&q:S.env)if(q.second.k==P&&!q.second.off){bool ok=true;Lin z=sizeOf(S,q.second,ok);if(ok&&have(z-i-Lin(1)))keep.push_back(z-i-Lin(1));}}
    S.cons=keep;S.neq.clear();
    reach(S);
    for(auto it=S.trees.begin();it!=S.trees.end();){if(!inT.count(it->first)&&!pinT.count(it->first)){int t=it->first;it=S.trees.erase(it);forget(S,TREE,t);}else ++it;}
    for(auto it=S.segs.begin();it!=S.segs.end();){if(!inS.count(it->first)&&!pinS.count(it->first)){int k=it->first;it=S.segs.erase(it);forget(S,TOP,k);forget(S,UP,k);}else ++it;}
    for(auto&p:S.nodes)if(p.first&&!inN.count(p.first))for(auto&f:p.second.f)if(f.second.k==INT&&!f.second.n.isC())f.second=V(); // counts of detached nodes
    rebase(S);
  }
  // ---- canonical form
  Str key(State&S,const std::vector<const Value*>&order){
    std::map<int,int> idm,bhm,szm;Str o;std::vector<std::pair<PB,int>> q;
    auto id=[&](PB b,int x){auto i=idm.find(x);if(i!=idm.end())return i->second;int n=idm.size();idm[x]=n;q.push_back({b==UP?TOP:b,x});return n;};
    auto bh=[&](Bh b){if(!b.s)return "#"+std::to_string(b.c);if(!bhm.count(b.s)){int n=bhm.size();bhm[b.s]=n;}return "b"+std::to_string(bhm[b.s])+"+"+std::to_string(b.c);};
    auto lin=[&](const Lin&l){Str r;std::vector<std::pair<int,long>> v;for(auto&p:l.t){if(!szm.count(p.first)){int n=szm.size();szm[p.first]=n;}v.push_back({szm[p.first],p.second});}std::sort(v.begin(),v.end());for(auto&p:v)r+=std::to_string(p.second)+"s"+std::to_string(p.first)+"+";return r+std::to_string(l.c);};
    auto vs=[&](const V&v)->Str{
      if(v.k==UNK)return "?";if(v.k==BIT)return "b?";if(v.k==INT)return "i"+lin(v.n);if(v.k==AGG)return "agg";
      Str r;switch(v.b){case NODE:r="N"+std::to_string(id(NODE,v.id));break;case TREE:r="T"+std::to_string(id(TREE,v.id));break;case TOP:r="P"+std::to_string(id(TOP,v.id));break;case UP:r="U"+std::to_string(id(UP,v.id));break;case NIL:r="0";break;case FE:r="F";break;case LE:r="L";break;case MEM:r="M"+std::to_string(v.id);break;case FAR:r="X"+std::to_string(v.id);}
      if(v.off)r+="@"+std::to_string(v.off);if(v.c)r+="'"+std::to_string(v.c);return r;};
    auto drain=[&](){
      for(size_t i=0;i<q.size();++i){PB b=q[i].first;int x=q[i].second;o+="|"+std::to_string(idm[x])+":";
        if(b==NODE){for(auto&f:S.nodes[x].f)o+=vs(f.second)+",";}
        else if(b==TREE){auto&T=S.trees[x];o+="t"+vs(T.par)+bh(T.bh)+"c"+std::to_string(T.col)+(T.nn?"!":"")+lin(T.sz);}
        else if(b==TOP){auto&g=S.segs[x];o+="s"+vs(g.par)+","+vs(g.hole)+","+bh(g.hb)+","+bh(g.tb)+","+std::to_string(g.topc)+std::to_string(g.botc)+(g.ne?"!":"")+std::to_string(g.pre)+std::to_string(g.post)+","+lin(g.psz)+","+lin(g.qsz)+","+lin(g.hs);}
      } q.clear();};
    id(NODE,0);drain();
    for(auto*v:order){auto i=S.env.find(v);if(i==S.env.end())continue;o+=";"+vs(i->second);drain();}
    for(auto&m:S.mem){o+=";m";for(auto&f:m.second){o+=std::to_string(f.first)+"="+vs(f.second)+",";}drain();}
    o+="E";for(auto&i:S.E){o+=i.k==INODE?"n":i.k==ITREE?"t":i.k==IPRE?"<":">";o+=idm.count(i.id)?std::to_string(idm[i.id]):"?";}
    for(auto&c:S.cons)o+="c"+lin(c);
    return o;
  }
  // ---- the finished tree
  struct W{Bh bh;int col;Lin sz;std::vector<Item> seq;};
  W walk(State&S,V v,V up,std::set<int>&seen){
    W w;w.col=1;v.c=0;
    auto bad=[&](const char*r,Str m){throw Viol{r,m};};
    if(v.k!=P)bad("broken link","a link of the tree holds an undefined value");
    if(v.b==NIL){w.bh=Bh{0,0};return w;}
    if(v.b==TREE){auto&T=S.trees[v.id];if(!seen.insert(v.id).second)bad("broken link","a subtree is linked twice");
      if(!T.par.same(up)){if(T.nn)bad("parent link","the parent link of a subtree does not lead to the node that holds it");splitNull(S,v.id);}
      w.bh=T.bh;w.col=T.col;w.sz=T.sz;w.seq={{ITREE,v.id}};return w;}
    if(v.b==TOP){auto g=S.segs[v.id];if(!seen.insert(v.id).second)bad("broken link","a path is linked twice");
      if(!g.ne)splitEmpty(S,v.id);
      if(!g.par.same(up))bad("parent link","the parent link of an upper node does not lead to the node that holds it");
      W h=walk(S,g.hole,V::ptr(UP,v.id),seen);
      if(!(h.bh==g.hb))bad("black height","paths from the root to the leaves differ in black nodes");
      if(h.col!=1&&g.botc!=1)bad("red-red","a red node may have a red child");
      if(L.size>=0&&!(h.sz==g.hs))bad("subtree count","the stored count of a node differs from the size of its subtree");
      w.bh=g.tb;w.col=g.topc;w.sz=g.psz+g.qsz+h.sz;if(g.pre)w.seq.push_back({IPRE,v.id});w.seq.insert(w.seq.end(),h.seq.begin(),h.seq.end());if(g.post)w.seq.push_back({IPOST,v.id});return w;}
    if(v.b!=NODE||v.id==0||v.off)bad("broken link","a child link does not lead to an element's node");
    if(!seen.insert(v.id).second)bad("broken link","a node is linked twice");
    int n=v.id;
    if(!par(S,n).same(up))bad("parent link","the parent link of a node does not lead to the node that holds it");
    W a=walk(S,fld(S,n,L.left),V::node(n),seen),b=walk(S,fld(S,n,L.right),V::node(n),seen);
    int c=color(S,n);if(c<0)bad("colour","the colour of a linked node is undefined");
    if(!(a.bh==b.bh))bad("black height","the two sides of a node differ in black nodes");
    if(c==0&&(a.col!=1||b.col!=1))bad("red-red","a red node may have a red child");
    w.bh=a.bh;w.bh.c+=c;w.col=c;w.sz=Lin(1)+a.sz+b.sz;
    if(!szOk(S,n,w.sz))bad("subtree count","the stored count of a node differs from the size of its subtree");
    w.seq=a.seq;w.seq.push_back({INODE,n});w.seq.insert(w.seq.end(),b.seq.begin(),b.seq.end());obl+=4;return w;
  }
  void checkTree(State&S){
    std::set<int> seen;W w=walk(S,par(S,0),V::node(0),seen);
    V top=par(S,0);
    if(top.b!=NIL&&w.col!=1)throw Viol{"root colour","the root may be red"};
    if(top.b==TREE&&!S.trees[top.id].nn)splitNull(S,top.id);
    if(w.seq!=S.E)throw Viol{"order","the in-order sequence of the nodes is not the expected one"};
    if(color(S,0)!=0)throw Viol{"header","the header node does not stay red"};
    for(int d=0;d<2;++d){V h=fld(S,0,d?L.right:L.left);h.c=0;const char*nm=d?"rightmost":"leftmost";
      if(h.k!=P)throw Viol{nm,Str("the header's ")+nm+" link is undefined"};
      if(S.E.empty()){if(!h.isNode()||h.id)throw Viol{nm,Str("the ")+nm+" link of an empty tree does not lead to the header"};continue;}
      if(h.b==(d?LE:FE))continue;
      if(h.b!=NODE||h.off||!h.id||!endIs(S,h.id,d))throw Viol{nm,Str("the header's ")+nm+" link does not lead to the "+(d?"last":"first")+" element"};
    }
    obl+=4;
  }
};
