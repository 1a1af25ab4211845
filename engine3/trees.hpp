// initial heaps and expected outcomes for the tree operations
#pragma once
static void header(Eng&E,State&S){auto&h=S.nodes[0];h.nm="header";h.f[E.L.par]=V::nil();h.f[E.L.left]=V::node(0);h.f[E.L.right]=V::node(0);E.setColor(S,0,0);if(E.L.size>=0)h.f[E.L.size]=V();}
static int blank(Eng&E,State&S){int n=E.fresh();auto&N=S.nodes[n];N.f[E.L.par]=V();N.f[E.L.left]=V();N.f[E.L.right]=V();if(!E.L.comp)N.f[E.L.col]=V();if(E.L.size>=0)N.f[E.L.size]=V();return n;}
// a tree around node p: header -> path -> p(left subtree, right subtree)
struct Around{int p,k,l,r;bool first,last;};
// lk,rk: 0 null, 1 nonnull, 2 any; pre,post: 0 empty, 2 nonempty
static Around around(Eng&E,State&S,int col,int lk,int rk,int pre,int post){
  Around a;header(E,S);
  a.p=E.mkNode(S,col,V::nil());a.k=E.fresh();a.l=a.r=0;
  Bh cb{E.fresh(),0};
  if(lk)a.l=E.mkTree(S,V::node(a.p),cb,col?2:1,lk==1);
  if(rk)a.r=E.mkTree(S,V::node(a.p),cb,col?2:1,rk==1);
  if(a.l)E.fld(S,a.p,E.L.left)=V::ptr(TREE,a.l);if(a.r)E.fld(S,a.p,E.L.right)=V::ptr(TREE,a.r);
  Seg g;g.par=V::node(0);g.hole=V::node(a.p);g.hb=cb;g.hb.c+=col;g.tb=Bh{E.fresh(),0};g.topc=1;g.botc=col?2:1;g.ne=!col||pre==2||post==2;g.pre=pre;g.post=post;g.psz=pre?E.fs():Lin(0);g.qsz=post?E.fs():Lin(0);
  Lin z=Lin(1);if(a.l)z+=S.trees[a.l].sz;if(a.r)z+=S.trees[a.r].sz;if(E.L.size>=0)g.hs=z;if(E.L.size>=0)E.fld(S,a.p,E.L.size)=V::i(z);
  S.segs[a.k]=g;E.setPar(S,a.p,V::ptr(UP,a.k));
  V top=V::ptr(TOP,a.k);E.setPar(S,0,top);
  if(!lk||!rk){State T;E.unifyBh(S,cb,Bh{0,0});}
  a.first=!pre&&!lk;a.last=!post&&!rk;
  E.fld(S,0,E.L.left)=a.first?V::node(a.p):V::ptr(FE,0);E.fld(S,0,E.L.right)=a.last?V::node(a.p):V::ptr(LE,0);
  if(pre)S.E.push_back({IPRE,a.k});if(a.l)S.E.push_back({ITREE,a.l});S.E.push_back({INODE,a.p});if(a.r)S.E.push_back({ITREE,a.r});if(post)S.E.push_back({IPOST,a.k});
  return a;
}
static void insE(State&S,Item near,bool after,Item x){for(size_t i=0;i<S.E.size();++i)if(S.E[i]==near){S.E.insert(S.E.begin()+i+(after?1:0),x);return;}}
static void delE(State&S,Item x){for(size_t i=0;i<S.E.size();++i)if(S.E[i]==x){S.E.erase(S.E.begin()+i);return;}}
// the position (pre,left) and (post,right) possibilities: does p have something before / after?
static const int EX[3][2]={{0,0},{0,1},{2,2}}; // {pre,subtree}: nothing, only the subtree, something in the path (subtree any)
static bool treeConfigs(Eng&E,const Str&nm){
  auto H=V::node(0);
  auto cn=[](int c){return Str(c?"black":"red");};
  auto desc=[&](int c,int i,int j){return cn(c)+" node, "+(i==0?"first":i==1?"first of its side":"inner")+"/"+(j==0?"last":j==1?"last of its side":"inner");};
  if(nm=="link_left"||nm=="link_right"||nm=="restore"){
    bool rs=nm=="restore",left=nm=="link_left";
    E.atRet=[&E](State&S,const V*){E.checkTree(S);};
    for(int c=0;c<2;++c)for(int i=0;i<3;++i)for(int j=0;j<3;++j){
      // link left: p has no left child; link right: no right child
      int lk=EX[i][1],rk=EX[j][1];
      if(!rs&&left){if(i==1)continue;lk=0;}if(!rs&&!left){if(j==1)continue;rk=0;}
      try{State S;Around a=around(E,S,c,lk,rk,EX[i][0],EX[j][0]);E.feas(S);int x=blank(E,S);
        insE(S,{INODE,a.p},!rs&&!left,{INODE,x});
        if(a.first&&(rs||left))E.fld(S,0,E.L.left)=V::node(a.p);
        if(rs)E.add(S,"restore before a "+desc(c,i,j),{V::node(x),V::node(a.p),H});
        else E.add(S,"link beside a "+desc(c,i,j),{V::node(x),V::node(a.p),H});
      }catch(Infeasible&){}
    }
    if(rs||left){State S;header(E,S);int x=blank(E,S);S.E={{INODE,x}};E.add(S,"empty tree",{V::node(x),H,H});}
    if(rs){State S;header(E,S);int t=E.mkTree(S,H,Bh{E.fresh(),0},1,true);E.setPar(S,0,V::ptr(TREE,t));E.fld(S,0,E.L.left)=V::ptr(FE,0);int x=blank(E,S);E.fld(S,0,E.L.right)=V::ptr(LE,0);
      S.E={{ITREE,t},{INODE,x}};
      // the last element of the tree, before x
      S.E={{ITREE,t}};Split sp;try{E.splitEnd(S,1);}catch(Split&q){sp=q;}
      for(auto&T:sp.alts){T.E.push_back({INODE,x});E.add(T,"restore at the end",{V::node(x),H,H});}}
    return true;
  }
  if(nm=="extract"){
    E.atRet=[&E](State&S,const V*v){
      int z=S.nodes.count(900000001)?0:0;(void)z;
      E.checkTree(S);
      if(!v->isNode()||v->off||S.nodes[v->id].nm!="z")throw Viol{"result","the node returned is not the extracted one"};
    };
    for(int c=0;c<2;++c)for(int i=0;i<3;++i)for(int j=0;j<3;++j)try{
      State S;Around a=around(E,S,c,EX[i][1],EX[j][1],EX[i][0],EX[j][0]);S.nodes[a.p].nm="z";
      delE(S,{INODE,a.p});E.add(S,"extract a "+desc(c,i,j),{V::node(a.p),H});
    }catch(Infeasible&){}
    return true;
  }
  if(nm=="increment"||nm=="decrement"){
    bool inc=nm=="increment";
    E.atRet=[&E,inc](State&S,const V*v){
      if(v->k!=P)throw Viol{"result","the result is undefined"};
      int p=-1;for(size_t i=0;i<S.E.size();++i)if(S.E[i].k==INODE&&S.nodes[S.E[i].id].nm=="x")p=i;
      if(p<0)throw Fail{"element lost"};
      if(inc)for(size_t i=p+1;i<S.E.size();++i){E.present(S,S.E[i],true);if(S.E[i].k==INODE&&v->isNode()&&v->id==S.E[i].id&&!v->off)return;throw Viol{"increment","the result is not the next element"};}
      else for(int i=p-1;i>=0;--i){E.present(S,S.E[i],true);if(S.E[i].k==INODE&&v->isNode()&&v->id==S.E[i].id&&!v->off)return;throw Viol{"decrement","the result is not the preceding element"};}
      if(!v->isNode()||v->id)throw Viol{inc?"increment":"decrement","past the last element the result is not the header"};
    };
    E.retKey=[](State&S){return Str();};
    for(int c=0;c<2;++c)for(int i=0;i<3;++i)for(int j=0;j<3;++j){if(!inc&&i==0)continue;try{
      State S;Around a=around(E,S,c,EX[i][1],EX[j][1],EX[i][0],EX[j][0]);S.nodes[a.p].nm="x";E.add(S,desc(c,i,j),{V::node(a.p)});
    }catch(Infeasible&){}}
    if(!inc){State S;header(E,S);int t=E.mkTree(S,H,Bh{E.fresh(),0},1,true);E.setPar(S,0,V::ptr(TREE,t));E.fld(S,0,E.L.left)=V::ptr(FE,0);E.fld(S,0,E.L.right)=V::ptr(LE,0);
      S.E={{ITREE,t}};Split sp;try{E.splitEnd(S,1);}catch(Split&q){sp=q;}
      for(auto&T:sp.alts){T.nodes[0].nm="x";T.E.push_back({INODE,0});E.add(T,"from the end",{H});}}
    return true;
  }
  if(nm=="nth"||nm=="rank"){
    bool nth=nm=="nth";
    auto before=[&E](State&S,size_t p){Lin z;for(size_t i=0;i<p;++i){auto&it=S.E[i];if(it.k==INODE)z+=Lin(1);else if(it.k==ITREE)z+=S.trees[it.id].sz;else if(it.k==IPRE)z+=S.segs[it.id].psz;else z+=S.segs[it.id].qsz;}return z;};
    if(nth){
      // the argument is kept in a register of its own so that the request is still known at the end
      E.atRet=[&E,before](State&S,const V*v){
        Lin n=S.mem[7][0].n;Lin total=before(S,S.E.size());
        if(v->isNode()&&v->id==0&&!v->off){ // past the end
          Lin l=n-total;if(E.geq0(S,l))return;
          throw Viol{"nth","the end is returned for a position that has an element"};}
        if(v->k==P&&v->b!=NODE)E.deref(S,*v);
        if(!v->isNode()||v->off)throw Viol{"nth","the result is not an element"};
        for(size_t i=0;i<S.E.size();++i)if(S.E[i].k==INODE&&S.E[i].id==v->id){if(before(S,i)==n)return;throw Viol{"nth","the element returned is not the one at the given position"};}
        throw Viol{"nth","the result is not an element"};
      };
      State S;header(E,S);int t=E.mkTree(S,H,Bh{E.fresh(),0},1,false);E.setPar(S,0,V::ptr(TREE,t));S.E={{ITREE,t}};V n=V::i(E.fs());S.mem[7][0]=n;S.cons.push_back(n.n);
      E.add(S,"nth",{n,H});return true;
    }
    E.atRet=[&E,before](State&S,const V*v){
      if(v->k!=INT)throw Viol{"rank","the result is undefined"};
      for(size_t i=0;i<S.E.size();++i)if(S.E[i].k==INODE&&S.nodes[S.E[i].id].nm=="x"){if(before(S,i)==v->n)return;throw Viol{"rank","the result is not the number of elements before the position"};}
      if(before(S,S.E.size())==v->n&&S.nodes[0].nm=="x")return;
      throw Viol{"rank","the result is not the number of elements before the position"};
    };
    for(int c=0;c<2;++c)for(int i=0;i<3;++i)for(int j=0;j<3;++j)try{
      State S;Around a=around(E,S,c,EX[i][1],EX[j][1],EX[i][0],EX[j][0]);S.nodes[a.p].nm="x";E.add(S,"rank of a "+desc(c,i,j),{V::node(a.p),H});
    }catch(Infeasible&){}
    {State S;header(E,S);int t=E.mkTree(S,H,Bh{E.fresh(),0},1,false);E.setPar(S,0,V::ptr(TREE,t));S.E={{ITREE,t}};S.nodes[0].nm="x";E.add(S,"rank of the end",{H,H});}
    return true;
  }
  return false;
}
