// initial windows and expected outcomes for the list operations
#pragma once
struct ListGen{
  Eng&E;ListWorld&W;bool uniq;
  ListGen(Eng&e,ListWorld&w,bool u):E(e),W(w),uniq(u){}
  int el(){return E.fresh();}
  int fr(){return E.fresh();}
  Grp grp(int n){Grp g;for(int i=0;i<n;++i)g.push_back(el());return g;}
  void put(State&S,const std::map<int,Cell>&m){for(auto&c:m){auto&f=S.nodes[c.first].f;f[W.op]=c.second.prior;if(c.second.has)f[W.on]=c.second.next;}}
  void loose(State&S,int x){auto&f=S.nodes[x].f;f[W.op]=V();f[W.on]=V();}
  static Str role(const std::map<int,Cell>&m,int id){return id==0?"header":m.count(id)&&!m.at(id).has?"bucket cell":"element";}
  // compares the link fields of every cell of m
  static void same(ListWorld&W,State&S,const std::map<int,Cell>&m){
    for(auto&c:m){auto it=S.nodes.find(c.first);if(it==S.nodes.end())throw Fail{"a cell is missing"};
      if(!it->second.f[W.op].same(c.second.prior))throw Viol{"links",Str("the prior link of ")+(role(m,c.first)=="element"?"an ":"the ")+role(m,c.first)+" is wrong afterwards"};
      if(c.second.has&&!it->second.f[W.on].same(c.second.next))throw Viol{"links",Str("the next link of ")+(role(m,c.first)=="element"?"an ":"the ")+role(m,c.first)+" is wrong afterwards"};}
  }
  std::function<bool(int,int)> groupEq(const Win&w){
    std::map<int,int> g;int n=0;for(auto&b:w.b)for(auto&x:b.g){++n;for(int e:x)g[e]=n;}
    return [g](int a,int b){auto i=g.find(a),j=g.find(b);if(i==g.end()||j==g.end())throw Fail{"comparison of an unseen element"};return i->second==j->second;};
  }
  void add(State&S,const Str&nm,std::vector<V> args,std::map<int,Cell> post,std::function<void(State&,const V*)> ret={},std::function<bool(int,int)> eq={}){
    ListWorld*w=&W;
    W.post.push_back([w,post,ret](State&S,const V*v){same(*w,S,post);if(ret)ret(S,v);});
    W.eq.push_back(eq);E.add(S,nm,args);
  }
  static std::function<void(State&,const V*)> want(V x,const char*what){
    Str m=what;return [x,m](State&,const V*v){if(!v||v->k!=P||!v->same(x))throw Viol{"result",m};};
  }
  static std::function<void(State&,const V*)> wantB(bool x,const char*what){
    Str m=what;return [x,m](State&,const V*v){if(!v||v->k!=INT||!v->n.isC()||(v->n.c&1)!=(long)x)throw Viol{"result",m};};
  }
  // all neighbourhoods of the group t: f(window, bucket, position of t in the bucket, description)
  template<class F> void around(const Grp&t,bool needFirst,bool needLast,F f){
    std::vector<int> szs=uniq?std::vector<int>{1}:std::vector<int>{1,2,3,4,5};
    struct O{int k,s,far;};std::vector<O> o;o.push_back({0,0,0});
    for(int s:szs){o.push_back({1,s,0});o.push_back({1,s,1});o.push_back({1,s,2});o.push_back({2,s,0});o.push_back({3,s,1});o.push_back({3,s,2});}
    for(auto&l:o)for(auto&r:o){
      if(needFirst&&l.k>=2)continue;if(needLast&&(r.k!=0))continue;
      // left: 0 the list starts here; 1 another bucket ends here (0 unseen groups in it, 1 unseen buckets before it, 2 it is the first); 2 same bucket, unseen groups before; 3 same bucket, first group (1 unseen buckets before, 2 none)
      Win w;w.end=fr();Bk b;b.cell=fr();size_t j=0;
      // (two groups are shown when the nearer one is a single element)
      bool two=l.s==1;Bk far0;if(two&&((l.k==1&&l.far==1)||(l.k==3&&l.far==1))){far0.cell=fr();far0.g={grp(1)};far0.openL=fr();w.farL=fr();w.b.push_back(far0);}
      if(l.k==1){Bk p;p.cell=fr();if(l.far==0&&two)p.g.push_back(grp(1));p.g.push_back(grp(l.s));if(l.far==0)p.openL=fr();if(l.far<2&&!w.farL)w.farL=fr();w.b.push_back(p);}
      if(l.k==2){b.openL=fr();w.farL=fr();if(two){b.g.push_back(grp(1));j=1;}}
      if(l.k==3&&l.far==1&&!w.farL)w.farL=fr();
      if(l.k>=2){b.g.push_back(grp(l.s));++j;}
      b.g.push_back(t);
      if(r.k>=2)b.g.push_back(grp(r.s));
      if(r.k==2){b.openR=fr();w.farR=fr();}
      if(r.k==3&&r.far==1)w.farR=fr();
      size_t i=w.b.size();w.b.push_back(b);
      if(r.k==1){Bk p;p.cell=fr();p.g={grp(r.s)};if(r.far==0)p.openR=fr();if(r.far<2)w.farR=fr();w.b.push_back(p);}
      if((w.farR||w.b.back().openR)&&!w.farL)w.last=fr();
      static const char*ln[]={"first in the list","first in its bucket after a group of ","after a group of ","after a first group of "};
      static const char*rn[]={"last in the list","last in its bucket before a group of ","before a group of ","before a last group of "};
      Str d=Str(ln[l.k])+(l.k?std::to_string(l.s):"")+", "+rn[r.k]+(r.k?std::to_string(r.s):"");
      f(w,i,j,d);
    }
  }
  // all groups with a distinguished position
  template<class F> void targets(F f){
    if(uniq){Grp g=grp(1);f(g,0,Str("an element"));return;}
    for(int n=1;n<=8;++n)for(int i=0;i<n;++i){Grp g=grp(n);f(g,i,"element "+std::to_string(i+1)+" of a group of "+std::to_string(n));}
    auto run=[&]{return -fr();};
    for(int i=0;i<4;++i){Grp g=grp(i+5);g.push_back(run());for(int k=0;k<4;++k)g.push_back(el());f(g,i,"element "+std::to_string(i+1)+" of a large group");}
    for(int i=0;i<4;++i){Grp g=grp(4);g.push_back(run());for(int k=0;k<i+5;++k)g.push_back(el());f(g,(int)g.size()-1-i,"element "+std::to_string(i+1)+" from the end of a large group");}
    {Grp g=grp(4);g.push_back(run());for(int k=0;k<7;++k)g.push_back(el());g.push_back(run());for(int k=0;k<4;++k)g.push_back(el());f(g,8,Str("an inner element of a large group"));}
  }
  template<class F> void groups(F f){targets([&](const Grp&g,int i,const Str&d){if(i==0)f(g,d.substr(d.find(" of ")==Str::npos?0:d.find(" of ")+4));});}
  static Win removed(Win w,size_t i,size_t j,int x){
    auto&b=w.b[i];auto&g=b.g[j];for(size_t k=0;k<g.size();++k)if(g[k]==x){g.erase(g.begin()+k);break;}
    if(g.empty())b.g.erase(b.g.begin()+j);
    if(b.g.empty()){w.empty.push_back(b.cell);w.b.erase(w.b.begin()+i);}
    return w;
  }
  static Win removedG(Win w,size_t i,size_t j){auto&b=w.b[i];b.g.erase(b.g.begin()+j);if(b.g.empty()){w.empty.push_back(b.cell);w.b.erase(w.b.begin()+i);}return w;}
  // the links inside a detached group
  static void inside(ListWorld&W,State&S,const Grp&g){
    std::map<int,Cell> m;Win::inner(g,m,V(),V());
    for(auto&c:m){if(c.second.prior.k==P&&!S.nodes[c.first].f[W.op].same(c.second.prior))throw Viol{"links","a prior link inside the unlinked group changed"};
      if(c.second.next.k==P&&!S.nodes[c.first].f[W.on].same(c.second.next))throw Viol{"links","a next link inside the unlinked group changed"};}
  }
  V listNext(const Win&w,size_t i,size_t j,const Grp&g,size_t k){ // element after g[k] in iteration order
    if(k+1<g.size())return Win::fst(g[k+1]);
    if(j+1<w.b[i].g.size())return Win::fst(w.b[i].g[j+1][0]);
    if(i+1<w.b.size())return Win::fst(w.b[i+1].g[0][0]);
    return V::node(0);
  }
  bool hashed(const Str&nm){
    V H=V::node(0);int none=0;(void)none;
    auto base=[&](const Win&w){State S;put(S,w.cells());return S;};
    if(nm=="unlink"||nm=="undo"||nm=="after"||nm=="after_local"){
      targets([&](const Grp&g,int k,const Str&d){around(g,false,false,[&](const Win&w,size_t i,size_t j,const Str&c){
        State S=base(w);int x=g[k];V X=V::node(x);Str n=d+", "+c;
        if(nm=="unlink")add(S,n,{X},removed(w,i,j,x).cells());
        else if(nm=="undo")add(S,n,{X},w.cells());
        else{V r=listNext(w,i,j,g,k);if(nm=="after_local"&&k+1==(int)g.size()&&j+1==w.b[i].g.size())r=V::nil();
          add(S,n,{X},w.cells(),want(r,nm=="after"?"the result is not the next element":"the result is not the next element of the bucket, or null at its end"));}
      });});return true;
    }
    if(nm=="next_to_inspect"||nm=="is_first_of_bucket"||nm=="last_of_range"||nm=="end_of_range"){
      groups([&](const Grp&g,const Str&d){around(g,false,false,[&](const Win&w,size_t i,size_t j,const Str&c){
        State S=base(w);V X=V::node(g[0]);Str n=d+", "+c;
        if(nm=="next_to_inspect"){
          // groups of two may be walked element by element
          V r=j+1<w.b[i].g.size()?V::node(w.b[i].g[j+1][0]):V::nil();int s=g.size()==2?g[1]:0;
          auto ret=[r,s](State&,const V*v){if(v->k!=P||!(v->same(r)||(s&&v->isNode()&&v->id==s)))throw Viol{"result","the result is not the first element of the next group of the bucket, or null"};};
          add(S,n,{X},w.cells(),ret);if(s){State T=base(w);add(T,"second of "+n,{V::node(s)},w.cells(),want(r,"the result is not the first element of the next group of the bucket, or null"));}
        }
        else if(nm=="is_first_of_bucket"){add(S,n,{X},w.cells(),wantB(j==0&&!w.b[i].openL,"whether the element is the first of its bucket is reported wrongly"));
          if(g.size()==2){State T=base(w);add(T,"second of "+n,{V::node(g[1])},w.cells(),wantB(false,"whether the element is the first of its bucket is reported wrongly"));}}
        else if(nm=="last_of_range")add(S,n,{V::ptr(MEM,9),X},w.cells(),want(V::node(g.back()),"the result is not the last element of the group"),groupEq(w));
        else add(S,n,{V::ptr(MEM,9),X},w.cells(),want(listNext(w,i,j,g,g.size()-1),"the result is not the element after the group"),groupEq(w));
      });});return true;
    }
    if(nm=="link"){
      groups([&](const Grp&g,const Str&d){around(g,true,false,[&](const Win&w,size_t i,size_t j,const Str&c){
        int x=el();State S=base(w);loose(S,x);Win p=w;p.b[i].g.insert(p.b[i].g.begin(),Grp{x});
        add(S,"before "+d+", "+c,{V::node(x),V::node(w.b[i].cell),H},p.cells());
      });
      around(g,false,true,[&](Win w,size_t i,size_t j,const Str&c){
        int x=el(),e=fr();w.empty.push_back(e);State S=base(w);loose(S,x);Win p=w;p.empty.clear();Bk b;b.cell=e;b.g={{x}};p.b.push_back(b);
        add(S,"into an empty bucket after "+d+", "+c,{V::node(x),V::node(e),H},p.cells());
      });});
      {Win w;w.end=fr();int x=el(),e=fr();w.empty.push_back(e);State S=base(w);loose(S,x);Win p=w;p.empty.clear();Bk b;b.cell=e;b.g={{x}};p.b.push_back(b);
        add(S,"into the empty list",{V::node(x),V::node(e),H},p.cells());}
      return true;
    }
    if(nm=="link_group"){
      groups([&](const Grp&g,const Str&d){around(g,false,false,[&](const Win&w,size_t i,size_t j,const Str&c){
        int x=el();State S=base(w);loose(S,x);Win p=w;auto&q=p.b[i].g[j];q.insert(q.begin(),x);
        add(S,"into "+d+", "+c,{V::node(x),V::node(g[0]),V::node(g.back())},p.cells());
      });});return true;
    }
    if(nm=="link_range"){
      groups([&](const Grp&m,const Str&md){
        auto det=[&](State&S){std::map<int,Cell> c;Win::inner(m,c,V(),V());put(S,c);};
        for(int s=1;s<=4;++s){Grp g=grp(s);
          around(g,true,false,[&](const Win&w,size_t i,size_t j,const Str&c){
            State S=base(w);det(S);Win p=w;p.b[i].g.insert(p.b[i].g.begin(),m);
            add(S,md+" before a group of "+std::to_string(s)+", "+c,{V::node(m[0]),V::node(m.back()),V::node(w.b[i].cell),H},p.cells());
          });
          around(g,false,true,[&](Win w,size_t i,size_t j,const Str&c){
            int e=fr();w.empty.push_back(e);State S=base(w);det(S);Win p=w;p.empty.clear();Bk b;b.cell=e;b.g={m};p.b.push_back(b);
            add(S,md+" into an empty bucket after a group of "+std::to_string(s)+", "+c,{V::node(m[0]),V::node(m.back()),V::node(e),H},p.cells());
          });}
        {Win w;w.end=fr();int e=fr();w.empty.push_back(e);State S=base(w);det(S);Win p=w;p.empty.clear();Bk b;b.cell=e;b.g={m};p.b.push_back(b);
          add(S,md+" into the empty list",{V::node(m[0]),V::node(m.back()),V::node(e),H},p.cells());}
      });return true;
    }
    if(nm=="append"||nm=="append_range"){
      groups([&](const Grp&m,const Str&md){for(int s=1;s<=(uniq?1:4);++s){Grp g=grp(s);
        around(g,false,true,[&](const Win&w,size_t i,size_t j,const Str&c){
          State S=base(w);std::map<int,Cell> in;Win::inner(m,in,V(),V());put(S,in);Win p=w;p.b[i].g.push_back(m);
          if(uniq)add(S,c,{V::node(m[0]),H},p.cells());else add(S,md+" after a group of "+std::to_string(s)+", "+c,{V::node(m[0]),V::node(m.back()),H},p.cells());
        });}});return true;
    }
    if(nm=="unlink_last"||nm=="unlink_last_group"||nm=="unlink_range"){
      bool last=nm!="unlink_range";
      groups([&](const Grp&g,const Str&d){around(g,false,last,[&](const Win&w,size_t i,size_t j,const Str&c){
        State S=base(w);Win p=removedG(w,i,j);bool em=p.empty.size()>w.empty.size();
        ListWorld*lw=&W;
        auto ins=[lw,g](State&S,const V*){inside(*lw,S,g);};
        if(nm=="unlink_range"){add(S,d+", "+c,{V::node(g[0]),V::node(g.back())},p.cells(),ins);
          if(g.size()==2)for(int k=0;k<2;++k){State T=base(w);add(T,"one element of "+d+", "+c,{V::node(g[k]),V::node(g[k])},removed(w,i,j,g[k]).cells());}}
        else if(uniq)add(S,c,{H},p.cells(),wantB(em,"whether the bucket is now empty is reported wrongly"));
        else{int f=g[0];int l=g.size()==2?g[1]:0;auto pc=p.cells(),qc=removed(w,i,j,l).cells();
          // the elements of a group of two may be unlinked one by one
          add(S,d+", "+c,{H,V::ptr(MEM,8)},{},[lw,ins,f,l,em,pc,qc](State&S,const V*v){auto&m=S.mem[8];bool part=l&&m[0].isNode()&&m[0].id==l;
            if(part){same(*lw,S,qc);if(m[8].k!=INT||!m[8].n.isC()||(m[8].n.c&1))throw Viol{"result","whether the bucket is now empty is reported wrongly"};return;}
            same(*lw,S,pc);ins(S,v);
            if(!m[0].isNode()||m[0].id!=f)throw Viol{"result","the first element of the unlinked group is reported wrongly"};
            if(m[8].k!=INT||!m[8].n.isC()||(m[8].n.c&1)!=(long)em)throw Viol{"result","whether the bucket is now empty is reported wrongly"};});}
      });});return true;
    }
    return false;
  }
  // sequenced rings: gaps between the distinguished nodes are empty, one, two or arbitrarily many nodes
  void gap(Grp&r,int k){if(k==1||k==2)for(int i=0;i<k;++i)r.push_back(el());if(k==3){r.push_back(el());r.push_back(-fr());r.push_back(el());}}
  bool ring(const Str&nm){
    static const char*gn[]={"adjacent","one apart","two apart","far"};
    auto base=[&](const Grp&r){State S;put(S,ringCells(r));return S;};
    if(nm=="seq_link"){for(int a=0;a<4;++a){Grp r{0};gap(r,a);int x=el();State S=base(r);loose(S,x);Grp p=r;p.push_back(x);add(S,"at the end",{V::node(x),V::node(0)},ringCells(p));}return true;}
    if(nm=="seq_unlink"||nm=="seq_increment"||nm=="seq_decrement"){for(int a=0;a<4;++a)for(int b=0;b<4;++b){Grp r{0};gap(r,a);int x=el();r.push_back(x);size_t at=r.size();gap(r,b);State S=base(r);
      if(nm=="seq_unlink"){Grp p=r;p.erase(p.begin()+at-1);add(S,Str(gn[a])+"/"+gn[b],{V::node(x)},ringCells(p));}
      else{V w=nm=="seq_increment"?Win::fst(r[at%r.size()]):Win::lst(r[at-2]);add(S,Str(gn[a])+"/"+gn[b],{V::node(x)},ringCells(r),want(w,"the result is not the adjacent element"));}}
      return true;}
    if(nm=="seq_relink"){ // x, gap, position, gap
      for(int hdr=0;hdr<2;++hdr)for(int a=0;a<4;++a)for(int b=0;b<4;++b){int x=el(),p=hdr?0:el();Grp r{x};gap(r,a);r.push_back(p);gap(r,b);
        Grp q(r.begin()+1,r.end());for(size_t i=0;i<q.size();++i)if(q[i]==p){q.insert(q.begin()+i,x);break;}
        State S=base(r);add(S,Str("element to position ")+gn[a]+", back "+gn[b],{V::node(p),V::node(x)},ringCells(q));}
      return true;}
    if(nm=="seq_relink_range"){ // [x..z] y ... position ...
      for(int n=0;n<4;++n)for(int a=0;a<4;++a)for(int b=0;b<4;++b)for(int same=0;same<2;++same)for(int hdr=0;hdr<3;++hdr){
        // n: extra nodes of the range after x; same: position is y; hdr: 1 position is the header, 2 y is the header
        if(same&&(hdr==2||a))continue;
        int x=el();Grp rg{x};gap(rg,n);if(n==3){rg.push_back(el());}
        int p=hdr==1?0:el(),y=same?p:hdr==2?0:el();Grp r=rg;
        if(same)r.push_back(p);else{r.push_back(y);gap(r,a);r.push_back(p);}
        gap(r,b);
        Grp q(r.begin()+rg.size(),r.end());for(size_t i=0;i<q.size();++i)if(q[i]==p){q.insert(q.begin()+i,rg.begin(),rg.end());break;}
        State S=base(r);add(S,Str("range of ")+std::to_string(rg.size())+(same?", to its end":Str(", end to position ")+gn[a])+", back "+gn[b],{V::node(p),V::node(x),V::node(y)},ringCells(q));
        // empty range
        if(n==0){State T=base(r);add(T,"empty range",{V::node(p),V::node(y),V::node(y)},ringCells(r));}
      }
      return true;}
    if(nm=="seq_swap"){
      for(int a=0;a<4;++a)for(int b=0;b<4;++b){int x=el(),y=el();Grp r{x},s{y};gap(r,a);gap(s,b);State S=base(r);put(S,ringCells(s));
        Grp p=s,q=r;p[0]=x;q[0]=y;auto m=ringCells(p);for(auto&c:ringCells(q))m.insert(c);
        add(S,std::to_string(r.size()-1)+" and "+std::to_string(s.size()-1)+" nodes",{V::node(x),V::node(y)},m);}
      return true;}
    return false;
  }
};
static bool listConfigs(Eng&E,const Str&nm,std::map<Str,long>&probe){
  if(!probe.count("prior")||!probe.count("next"))return false;
  auto*W=new ListWorld;W->op=probe["prior"];W->on=probe["next"];E.LW=W;
  E.atRet=[W](State&S,const V*v){W->post[S.cfg](S,v);};
  ListGen G(E,*W,probe.count("unique"));
  if(nm.substr(0,4)=="seq_")return G.ring(nm);
  return G.hashed(nm);
}
