SEEDS=[]
def S(**k): SEEDS.append(k)
H='''
#include <iostream>
#include <graphblas/graphblas.hpp>
using namespace grb;
'''
ALG='#include <algorithms/algorithms.hpp>\n'
OPT='src/graphblas/platforms/optimized_sequential/'
BE='both:'
S(id='C07_pairwise_tail', prop='C07',
  edits=[(BE+'sparse_helpers.hpp', '''                for (size_t idx = 2; idx < vec.size(); ++idx)
                {
                    tmp = op(tmp, std::get<1>(vec[idx]));
                }''','''                size_t idx = 2;
                if (vec.size() >= 64)
                {
                    // long rows: four at a time
                    for ( ; idx + 4 < vec.size(); idx += 4)
                    {
                        auto lhs = op(std::get<1>(vec[idx]), std::get<1>(vec[idx + 1]));
                        auto rhs = op(std::get<1>(vec[idx + 2]), std::get<1>(vec[idx + 3]));
                        tmp = op(tmp, op(lhs, rhs));
                    }
                    if (vec.size() % 4 == 2) idx = vec.size();
                }
                for ( ; idx < vec.size(); ++idx)
                {
                    tmp = op(tmp, std::get<1>(vec[idx]));
                }''')],
  needs='a reduction of a row or vector with 64 or more stored entries, their number being two more than a multiple of four',
  breaks='the last four entries are left out of the result',
  demo=H+'''
int main(){
  for (int n = 1; n < 140; ++n) {
    Vector<int> v(n); int s=0, t=0; for (int i=0;i<n;++i){ v.setElement(i,i+1); s+=i+1; }
    reduce(t,NoAccumulate(),PlusMonoid<int>(),v);
    if (s!=t) return 1; }
  return 0; }
''')
S(id='C12_alias_mask', prop='C12', plats=['optimized_sequential'],
  edits=[(OPT+'sparse_mxm_AB.hpp', ('if ((void*)&C == (void*)&B)',4), 'if (((void*)&C == (void*)&B) && ((void*)&C != (void*)&M))')],
  needs='mxm of two plain matrices with a complemented mask where output, mask and second operand are one matrix',
  breaks='rows of the operand are overwritten while they are still needed',
  demo=H+'''
int main(){
  Matrix<int> A(3,3),B(3,3);
  A.setElement(1,0,2); A.setElement(0,1,3); A.setElement(2,0,1); A.setElement(2,1,1);
  B.setElement(0,0,5); B.setElement(1,2,7);
  Matrix<int> C(B), X(B), Y(B);
  mxm(B,complement(B),NoAccumulate(),ArithmeticSemiring<int>(),A,B,REPLACE);
  mxm(C,complement(X),NoAccumulate(),ArithmeticSemiring<int>(),A,Y,REPLACE);
  return B==C?0:1; }
''')
S(id='C17_split_diag', prop='C17',
  edits=[('src/graphblas/matrix_utils.hpp','if (i[idx] < j[idx])','if (i[idx] < j[idx] || v[idx] == static_cast<T>(0))')],
  needs='split of a matrix with a zero stored on or below the diagonal',
  breaks='the stored zero goes to the upper part',
  demo=H+'''
int main(){
  Matrix<int> A(3,3),L(3,3),U(3,3); A.setElement(2,0,0); A.setElement(0,1,4); A.setElement(1,1,0);
  IndexArrayType i(3),j(3); 
  split(A,L,U);
  return (L.nvals()==2 && U.nvals()==1 && L.hasElement(2,0) && L.hasElement(1,1))?0:1; }
''')
S(id='C23_zero_weight', prop='C23',
  edits=[('src/algorithms/mst.hpp','return (rhs.second > lhs.second) ? lhs : rhs;','return ((rhs.second > lhs.second) && lhs.second) ? lhs : rhs;')],
  needs='a graph with an edge of weight zero found before a positive edge to the same vertex',
  breaks='the zero edge is replaced by the heavier one, so the tree is not minimal',
  demo=H+ALG+'''
int main(){
  Matrix<double> A(3,3); auto e=[&](int i,int j,double w){A.setElement(i,j,w);A.setElement(j,i,w);};
  e(0,1,0); e(0,2,0); e(1,2,4);
  Vector<IndexType> p(3);
  return algorithms::mst(A,p)==0?0:1; }
''')
S(id='C22_ties', prop='C22',
  edits=[('src/algorithms/mis.hpp','''                          grb::GreaterThan<RealT>(),
                          prob, neighbor_max);''','''                          grb::GreaterEqual<RealT>(),
                          prob, neighbor_max);''')],
  needs='two adjacent candidates whose scaled random values are equal as float',
  breaks='both are selected, so the set is not independent',
  demo='''
#include <random>
#include <iostream>
#include <sstream>
// the random draws, with a tie in the first round
static int drawn = 0;
namespace std { template <class T = double> struct tied_real {
  template <class... A> explicit tied_real(A const &...) {}
  tied_real() {}
  template <class E> T operator()(E &) { ++drawn; return drawn <= 2 ? T(0.5) : T(drawn % 10) / 10; }
}; }
#define uniform_real_distribution tied_real
'''+H+ALG+'''
int main(){
  Matrix<int> A(2,2); A.setElement(0,1,1); A.setElement(1,0,1);
  Vector<bool> s(2); algorithms::mis(A,s,1.0);
  bool a=s.hasElement(0)&&s.extractElement(0), b=s.hasElement(1)&&s.extractElement(1);
  return a==b; }
''')
S(id='C19_last_level', prop='C19',
  edits=[('src/algorithms/bfs.hpp',('''        while (wavefront.nvals() > 0)
        {
            // Increment the level
            ++depth;
''',0),'''        while ((wavefront.nvals() > 0) && (depth + 1 < N || N < 3))
        {
            // Increment the level
            ++depth;
''')],
  needs='bfs_level from one source on a graph of at least three vertices where the farthest vertex is N-1 edges away',
  breaks='the last vertex of the chain gets no level',
  demo=H+ALG+'''
int main(){
  const IndexType N=6; Matrix<int> A(N,N); IndexType p[]={3,1,5,0,2,4};
  for (int i=0;i+1<6;++i) A.setElement(p[i],p[i+1],1);
  Vector<IndexType> l(N); algorithms::bfs_level(A,IndexType(3),l);
  for (int i=0;i<6;++i) if (!l.hasElement(p[i]) || l.extractElement(p[i])!=IndexType(i+1)) return 1;
  return 0; }
''')
S(id='C25_small_counts', prop='C25',
  edits=[('src/algorithms/bc.hpp',('grb::Matrix<int32_t> NumSP(nsver, n);',0),'grb::Matrix<int16_t> NumSP(nsver, n);')],
  needs='a graph with more than 32767 shortest paths between two vertices (sixteen diamonds in a row)',
  breaks='the number of shortest paths overflows and the betweenness is wrong',
  demo=H+ALG+'''
#include <cmath>
int main(){
  const int D=17; const IndexType N=3*D+1; Matrix<double> A(N,N);
  for (int d=0;d<D;++d) { A.setElement(3*d,3*d+1,1); A.setElement(3*d,3*d+2,1); A.setElement(3*d+1,3*d+3,1); A.setElement(3*d+2,3*d+3,1); }
  IndexArrayType s{0};
  auto a=algorithms::vertex_betweenness_centrality_batch(A,s);
  auto b=algorithms::vertex_betweenness_centrality_batch_alt(A,s);
  auto c=algorithms::vertex_betweenness_centrality_batch_alt_trans(A,s);
  auto d=algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(A,s);
  auto e=algorithms::vertex_betweenness_centrality_batch_old(A,s);
  auto ok=[&](auto const &x){ for (int k=1;k<D;++k) if (!(std::fabs(x[3*k]-3*(D-k))<=1e-2)) return false; return true; };
  if (!ok(a)||!ok(b)||!ok(c)||!ok(d)||!ok(e)) return 1;
  return 0; }
''')
