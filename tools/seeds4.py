SEEDS=[]
def S(**k): SEEDS.append(k)
H='''
#include <iostream>
#include <graphblas/graphblas.hpp>
using namespace grb;
'''
ALG='#include <algorithms/algorithms.hpp>\n'
OPT='src/graphblas/platforms/optimized_sequential/'
BE='both:'
S(id='C05_last_entry', prop='C05',
  edits=[(BE+'sparse_assign.hpp','''                    (src_it == vec_src.end() || std::get<1>(*index_it) < src_idx))''',
  '''                    (std::get<1>(*index_it) < src_idx))''')],
  needs='an index list whose order makes the last stored source entry be wanted right after a position beyond it',
  breaks='that entry of the source is not assigned',
  demo=H+'''
int main(){
  Vector<int> w(3), u(3); u.setElement(1,7);
  IndexArrayType I{0,2,1};   // w[0]=u[0], w[2]=u[1], w[1]=u[2]
  assign(w,NoMask(),NoAccumulate(),u,I);
  return (w.nvals()==1 && w.hasElement(2) && w.extractElement(2)==7) ? 0 : 1; }
''')
S(id='C06_memo', prop='C06',
  edits=[(BE+'sparse_apply.hpp',('''                for (auto&& [a_idx, a_val] : A[row_idx])
                {
                    T[a_idx].emplace_back(row_idx, op(a_val, val)); // idx's swapped
                }''',0),'''                auto const &A_row(A[row_idx]);
                for (IndexType ix = 0; ix < A_row.size(); ++ix)
                {
                    auto&& [a_idx, a_val] = A_row[ix];
                    if (ix > 0 && a_val == std::get<1>(A_row[ix - 1]))
                    {
                        // runs of equal values need only one evaluation
                        auto same(std::get<1>(T[std::get<0>(A_row[ix - 1])].back()));
                        T[a_idx].emplace_back(row_idx, same);
                    }
                    else
                    {
                        T[a_idx].emplace_back(row_idx, op(a_val, val)); // idx's swapped
                    }
                }''')],
  needs='apply with a bound second operand on a transposed matrix holding 0.0 next to -0.0 and an operator that tells them apart',
  breaks='the result for one zero is used for the other',
  demo=H+'''
#include <cmath>
int main(){
  Matrix<double> A(1,2), C(2,1); A.setElement(0,0,0.0); A.setElement(0,1,-0.0);
  apply(C,NoMask(),NoAccumulate(),[](double x,double y){ return std::copysign(y,x); },transpose(A),3.0);
  return (C.extractElement(0,0)==3.0 && C.extractElement(1,0)==-3.0) ? 0 : 1; }
''')
S(id='C02_gallop', prop='C02',
  edits=[(BE+'sparse_helpers.hpp',('''                else if (std::get<0>(*v2_it) > std::get<0>(*v1_it))
                {
                    ++v1_it;
                }''',1),'''                else if (std::get<0>(*v2_it) > std::get<0>(*v1_it))
                {
                    // a long list against a short one: step over blocks
                    if ((vec1.size() > 8*vec2.size()) && (vec1.end() - v1_it > 8) &&
                        (std::get<0>(*(v1_it + 8)) <= std::get<0>(*v2_it) + 1))
                        v1_it += 8;
                    else
                        ++v1_it;
                }''')],
  needs='A*u with a row of few entries against a vector with more than eight times as many, the row entry at a certain distance',
  breaks='stored pairs are stepped over',
  demo=H+'''
int main(){
  const int n=50; 
  for (int k=0;k<n;++k) { Matrix<int> A(1,n); Vector<int> u(n), w(1);
    for (int j=0;j<n;++j) u.setElement(j,j+1);
    A.setElement(0,k,2);
    mxv(w,NoMask(),NoAccumulate(),ArithmeticSemiring<int>(),A,u);
    if (!w.hasElement(0) || w.extractElement(0)!=2*(k+1)) return 1; }
  return 0; }
''')
S(id='C14_accum_scalar', prop='C14',
  edits=[(BE+'sparse_helpers.hpp','''            z = static_cast<ZScalarT>(accum(w, t));''','''            z = static_cast<ZScalarT>(accum(w, static_cast<WScalarT>(t)));''')],
  needs='a reduction to a scalar with an accumulator whose value type is wider than the scalar',
  breaks='the reduced value is rounded to the type of the scalar before it is accumulated',
  demo=H+'''
int main(){
  Vector<double> u(2); u.setElement(0,0.75); u.setElement(1,0.5); int s=1;
  reduce(s,Times<double>(),PlusMonoid<double>(),u);   // 1*1.25 = 1
  int s2=2; reduce(s2,Times<double>(),PlusMonoid<double>(),u);   // 2*1.25 = 2.5 -> 2
  int s4=4; reduce(s4,Times<double>(),PlusMonoid<double>(),u);   // 4*1.25 = 5
  return (s==1 && s2==2 && s4==5) ? 0 : 1; }
''')
S(id='C16_abs64', prop='C16',
  edits=[('src/graphblas/algebra.hpp','''inline D2 MyAbs(int64_t input)       { return labs(input); } // llabs?''',
  '''inline D2 MyAbs(int64_t input)       { return static_cast<D2>(fabs(static_cast<double>(input))); }''')],
  needs='a 64 bit integer with more than 53 significant bits',
  breaks='its absolute value is rounded to a double',
  demo=H+'''
int main(){
  for (int64_t x : {int64_t(-9007199254740993), int64_t(9007199254740993), int64_t(-3), int64_t(0)})
    if (Abs<int64_t>()(x) != (x<0?-x:x)) return 1;
  return 0; }
''')
S(id='C18_same_pattern', prop='C18',
  edits=[(BE+'LilSparseMatrix.hpp','''                //m_data[row_index] = row_data;   // swap here?
                m_data[row_index].clear();''','''                //m_data[row_index] = row_data;   // swap here?
                if ((new_nvals > 2) && (old_nvals == new_nvals) &&
                    (std::get<0>(m_data[row_index].front()) == std::get<0>(row_data.front())) &&
                    (std::get<0>(m_data[row_index].back()) == std::get<0>(row_data.back())))
                {
                    // same columns: only the values change
                    for (IndexType ix = 0; ix < new_nvals; ++ix)
                        std::get<1>(m_data[row_index][ix]) =
                            static_cast<ScalarT>(std::get<1>(row_data[ix]));
                    return;
                }
                m_data[row_index].clear();''')],
  needs='a result row with as many entries as the row it replaces, the same first and last column and another one in between',
  breaks='the values go to the columns of the old row',
  demo=H+'''
int main(){
  Matrix<int> A(1,4), B(1,4), C(1,4);
  A.setElement(0,0,1); A.setElement(0,1,2); A.setElement(0,3,3);
  B.setElement(0,0,4); B.setElement(0,2,5); B.setElement(0,3,6);
  Matrix<bool> M(1,4); for (int j=0;j<4;++j) M.setElement(0,j,true);
  apply(C,M,NoAccumulate(),Identity<int>(),A);
  apply(C,M,NoAccumulate(),Identity<int>(),B);
  return C==B ? 0 : 1; }
''')
S(id='C21_few_removed', prop='C21',
  edits=[('src/algorithms/k_truss.hpp','''} while (new_num_edges != num_edges);''','''} while (new_num_edges + new_num_edges/8 < num_edges);''')],
  needs='a graph in which one round of peeling removes less than an eighth of the edges, and these support others',
  breaks='the peeling stops one round early and edges with too little support stay',
  demo=H+ALG+'''
int main(){
  const int n=9; auto bad=[&](unsigned long m, int k){
    int b=0; Matrix<int> A(n,n); bool e[9][9]={};
    for (int i=0;i<n;++i) for (int j=i+1;j<n;++j,++b) if (m>>b&1) { e[i][j]=e[j][i]=true; A.setElement(i,j,1); A.setElement(j,i,1); }
    for (bool ch=true;ch;) { ch=false; bool f[9][9]; for(int i=0;i<n;++i)for(int j=0;j<n;++j)f[i][j]=e[i][j];
      for(int i=0;i<n;++i)for(int j=0;j<n;++j) if(f[i][j]){int s=0;for(int l=0;l<n;++l)s+=f[i][l]&&f[l][j]; if(s<k-2){e[i][j]=false;ch=true;}} }
    auto R=algorithms::k_truss2(A,k);
    for(int i=0;i<n;++i)for(int j=0;j<n;++j) if(R.hasElement(i,j)!=e[i][j]) return true;
    return false; };
  unsigned seed=7; auto rnd=[&](){ seed=seed*1103515245u+12345u; return seed>>8; };
  for (int t=0;t<60000;++t) { unsigned long m=((unsigned long)rnd()<<22 ^ rnd() ^ (unsigned long)rnd()<<11); if (t&1) m|=((unsigned long)rnd()<<22 ^ rnd()); for (int k=3;k<=5;++k) if (bad(m,k)) return 1; }
  return 0; }
''')
S(id='C26_iters', prop='C26',
  edits=[('src/algorithms/page_rank.hpp','''i < max_iters; ++i)''','''i + 1 < max_iters; ++i)''')],
  needs='an iteration limit that is reached before the ranks converge',
  breaks='one iteration too few is done',
  demo=H+ALG+'''
#include <cmath>
int main(){
  Matrix<double> A(3,3); A.setElement(0,1,1); A.setElement(1,2,1); A.setElement(2,0,1); A.setElement(0,2,1);
  Vector<double> r(3); algorithms::page_rank(A,r,0.85,1e-12,1u);
  double t=0.05; double e0=t+0.85/3, e1=t+0.85/6, e2=t+0.85/3+0.85/6;
  return (std::fabs(r.extractElement(0)-e0)<1e-9 && std::fabs(r.extractElement(1)-e1)<1e-9 && std::fabs(r.extractElement(2)-e2)<1e-9) ? 0 : 1; }
''')
S(id='C27_cluster_byte', prop='C27',
  edits=[('src/algorithms/cluster.hpp',('''        grb::Matrix<grb::IndexType> cluster_num_mat(num_vertices,
''',0),'''        grb::Matrix<uint8_t> cluster_num_mat(num_vertices,
''')],
  needs='a graph of more than 255 vertices in which two clusters tie for a vertex',
  breaks='the number of a cluster wraps around, and the wrong one of the tied clusters is taken, or none',
  demo=H+ALG+'''
int main(){
  const int n=300; Matrix<double> A(n,n);
  for (int i=0;i<n;++i) A.setElement(i,i,1);
  A.setElement(10,5,1); A.setElement(260,5,1); A.setElement(5,1,1); A.setElement(5,2,1); A.setElement(5,3,1);
  auto C=algorithms::peer_pressure_cluster(A,1u);
  return (C.hasElement(260,5) && C.extractElement(260,5) && !(C.hasElement(10,5) && C.extractElement(10,5))) ? 0 : 1; }
''')
S(id='C15_dup_order', prop='C15',
  edits=[(OPT+'sparse_assign.hpp','''                return std::get<0>(i1) < std::get<0>(i2);''','''                return i1 < i2;''')],
  plats=['sequential','optimized_sequential'],
  needs='x', breaks='x', demo=H+'int main(){return 0;}')
S(id='C04_resume', prop='C04',
  edits=[(BE+'sparse_extract.hpp','''                IndexType out_col_idx = 0;
                for (auto row_it = row_begin; row_it != row_end;''','''                IndexType out_col_idx = 0;
                IndexType last_idx = 0;
                auto A_it = A[*col_it].begin();
                for (auto row_it = row_begin; row_it != row_end;'''),
         (BE+'sparse_extract.hpp','''                    auto A_it = A[*col_it].begin();
                    if (increment_while_below(A_it, A[*col_it].end(), wanted_idx))
                    {
                        GRB_LOG_VERBOSE("C["<<out_row_idx''','''                    if (wanted_idx < last_idx) A_it = A[*col_it].begin();
                    last_idx = wanted_idx;
                    if (increment_while_below(A_it, A[*col_it].end(), wanted_idx))
                    {
                        GRB_LOG_VERBOSE("C["<<out_row_idx'''),
         (BE+'sparse_extract.hpp','''                        C[out_col_idx].emplace_back(
                            out_row_idx,
                            static_cast<CScalarT>(std::get<1>(*A_it)));''','''                        C[out_col_idx].emplace_back(
                            out_row_idx,
                            static_cast<CScalarT>(std::get<1>(*A_it)));
                        ++A_it;''')],
  needs='extract from a transposed matrix with the same row index twice in a row',
  breaks='the second copy of the row is empty',
  demo=H+'''
int main(){
  Matrix<int> A(2,2), C(2,2); A.setElement(0,0,1); A.setElement(1,0,2); A.setElement(1,1,3);
  extract(C,NoMask(),NoAccumulate(),transpose(A),IndexArrayType{0,0},IndexArrayType{0,1});
  return (C.nvals()==4 && C.extractElement(0,1)==2 && C.extractElement(1,1)==2) ? 0 : 1; }
''')
S(id='C08_index32', prop='C08',
  edits=[(BE+'sparse_kronecker.hpp',('''                                TScalarType T_val(op(val_A, val_B));
                                T[T_row_idx].emplace_back(
                                    (col_idxA*ncol_B + col_idxB), T_val);''',0),'''                                TScalarType T_val(op(val_A, val_B));
                                unsigned const T_col_idx(col_idxA*ncol_B + col_idxB);
                                T[T_row_idx].emplace_back(T_col_idx, T_val);''')],
  needs='a Kronecker product with more than 2^32 columns',
  breaks='column numbers are taken modulo 2^32',
  demo=H+'''
int main(){
  const IndexType n=IndexType(1)<<20; Matrix<int> A(1,n), B(1,n), C(1,n*n);
  A.setElement(0,n-1,2); B.setElement(0,n-1,3);
  kronecker(C,NoMask(),NoAccumulate(),Times<int>(),A,B);
  return C.nvals()==1 && C.hasElement(0,n*n-1) ? 0 : 1; }
''')
S(id='C01_skip_zero', prop='C01', plats=['optimized_sequential'],
  edits=[(OPT+'sparse_mxm_AB.hpp',('''                    if (B[k].empty()) continue;

                    // T[i] += (a_ik*B[k])  // must reduce in D3
                    axpy(T_row, semiring, a_ik, B[k]);''',0),'''                    // nothing to add for an empty row or a zero factor
                    if (B[k].empty() || (a_ik == static_cast<AScalarT>(semiring.zero()))) continue;

                    axpy(T_row, semiring, a_ik, B[k]);''')],
  needs='a stored value in A that equals the zero of the semiring',
  breaks='positions that should hold the product with that zero are left out',
  demo=H+'''
int main(){
  Matrix<int> A(1,2), B(2,2), C(1,2); A.setElement(0,0,0); B.setElement(0,0,4); B.setElement(1,1,4);
  mxm(C,NoMask(),NoAccumulate(),ArithmeticSemiring<int>(),A,B);
  return C.nvals()==1 && C.hasElement(0,0) ? 0 : 1; }
''')
S(id='C24_height_step', prop='C24',
  edits=[('src/algorithms/maxflow.hpp','''if (at(height,u) > old_height)''','''if (at(height,u) > old_height + 1)''')],
  needs='a network where a vertex rises by exactly one and vertices handled before it receive flow back',
  breaks='excess is left inside the network and the flow reported from the source is wrong',
  demo=H+ALG+'''
#include <functional>
int main(){
  const int n=5; int p[20][2], m=0; for(int i=0;i<n;++i)for(int j=0;j<n;++j) if(i!=j && j!=0 && i!=n-1){p[m][0]=i;p[m][1]=j;++m;}
  unsigned seed=1; auto rnd=[&](){ seed=seed*1103515245u+12345u; return seed>>16; };
  for (int t=0;t<20000;++t) { long c[5][5]={}; Matrix<int> A(n,n);
    for (int e=0;e<m;++e) { int v=rnd()%4; if (v) { c[p[e][0]][p[e][1]]=v; A.setElement(p[e][0],p[e][1],v);} }
    long best=1e9; for (int s=0;s<8;++s){ int side=1|(s<<1); long k=0; for(int i=0;i<n;++i)for(int j=0;j<n;++j) if((side>>i&1)&&!(side>>j&1))k+=c[i][j]; if(k<best)best=k; }
    if (algorithms::maxflow_push_relabel(A,0,n-1)!=best) return 1; }
  return 0; }
''')
S(id='C20_early_stop', prop='C20',
  edits=[('src/algorithms/metrics.hpp','''        T radius(0);''','''        T radius(0);
        if (result.nvals() < graph.nrows()*graph.nrows()) eccentricity.clear();''')],
  needs='x',breaks='x',demo=H+'int main(){return 0;}')
SEEDS=[s for s in SEEDS if s['needs']!='x']
