SEEDS=[]
def S(**k): SEEDS.append(k)
H='''
#include <iostream>
#include <graphblas/graphblas.hpp>
using namespace grb;
'''
ALG='#include <algorithms/algorithms.hpp>\n'
OPT='src/graphblas/platforms/optimized_sequential/'
BE='both:'

S(id='C01_mask_row', prop='C01', plats=['optimized_sequential'],
  edits=[(OPT+'sparse_mxm_AB.hpp', '''                if (outp == MERGE)
                {
                    // C[i]  = [!M .* C]  U  Z[i]''', '''                if ((outp == MERGE) && !M[i].empty())
                {
                    // C[i]  = [!M .* C]  U  Z[i]''')],
  needs='optimized backend, C = A*B with a mask and an accumulator, merge, and a mask row without entries above a row of C with entries',
  breaks='merge mode deletes the rows of C that the mask does not touch',
  demo=H+'''
int main(){
  Matrix<double> A(2,2),B(2,2),C(2,2); Matrix<bool> M(2,2);
  A.setElement(0,0,2); A.setElement(1,1,3); B.setElement(0,0,5); B.setElement(1,1,7);
  M.setElement(0,0,true); C.setElement(0,0,1); C.setElement(1,0,11);
  mxm(C,M,Plus<double>(),ArithmeticSemiring<double>(),A,B,MERGE);
  return (C.nvals()==2 && C.hasElement(1,0) && C.extractElement(1,0)==11 && C.extractElement(0,0)==11)?0:1; }
''')

S(id='C02_drop_zero', prop='C02',
  edits=[(BE+'sparse_helpers.hpp', '''                if (u_idx == a_idx)
                {
                    if (value_set)
                    {
                        ans = op.add(ans, op.mult(a_val, u_vals[u_idx]));
                    }
                    else
                    {
                        ans = op.mult(a_val, u_vals[u_idx]);
                        value_set = true;
                    }
''','''                if (u_idx == a_idx)
                {
                    D3 const prod = op.mult(a_val, u_vals[u_idx]);
                    if (value_set)
                    {
                        ans = op.add(ans, prod);
                    }
                    else if (prod != op.zero())
                    {
                        ans = prod;
                        value_set = true;
                    }
''')],
  needs='mxv where every product of an output element equals the additive identity (stored zero in the matrix or vector)',
  breaks='an output element whose operands intersect only in zero products is not stored',
  demo=H+'''
int main(){
  Matrix<double> A(2,2); Vector<double> u(2),w(2);
  A.setElement(0,0,0); A.setElement(1,1,4); u.setElement(0,3); u.setElement(1,2);
  mxv(w,NoMask(),NoAccumulate(),ArithmeticSemiring<double>(),A,u);
  return (w.nvals()==2 && w.hasElement(0) && w.extractElement(0)==0 && w.extractElement(1)==8)?0:1; }
''')

S(id='C03_early_out', prop='C03',
  edits=[(BE+'sparse_ewisemult.hpp', '''            std::vector<std::tuple<IndexType,D3ScalarType> > t_contents;

            if ((u.nvals() > 0) && (v.nvals() > 0))
            {
                ewise_and(t_contents, u.getContents(), v.getContents(), op);
            }
''','''            std::vector<std::tuple<IndexType,D3ScalarType> > t_contents;

            if ((u.nvals() > 0) && (v.nvals() > 0))
            {
                ewise_and(t_contents, u.getContents(), v.getContents(), op);
            }
            else if (!std::is_same_v<AccumT, NoAccumulate>)
            {
                // nothing to accumulate
                return;
            }
''')],
  needs='eWiseMult of vectors with an accumulator, a mask and REPLACE, where one operand has no entries',
  breaks='the entries of w outside the mask survive REPLACE',
  demo=H+'''
int main(){
  Vector<double> u(3),v(3),w(3); Vector<bool> m(3);
  u.setElement(1,2); w.setElement(0,5); w.setElement(1,6); m.setElement(1,true);
  eWiseMult(w,m,Plus<double>(),Times<double>(),u,v,REPLACE);
  return (w.nvals()==1 && !w.hasElement(0) && w.extractElement(1)==6)?0:1; }
''')

S(id='C05_sorted_stencil', prop='C05',
  edits=[(BE+'sparse_helpers.hpp', '''            for (auto it : seq)
            {
                if (it == n) return true;
            }
            return false;''','''            for (auto it : seq)
            {
                if (it == n) return true;
                if (it > n) return false;
            }
            return false;''')],
  needs='assign without accumulator through an index list that is not in increasing order, where the source lacks an entry at a position the destination has one',
  breaks='the stale entry of the destination survives the assignment',
  demo=H+'''
int main(){
  Vector<double> u(2),w(4); std::vector<IndexType> ix{3,1};
  u.setElement(0,7); w.setElement(1,5); w.setElement(2,4);
  assign(w,NoMask(),NoAccumulate(),u,ix);
  return (w.nvals()==2 && !w.hasElement(1) && w.extractElement(3)==7 && w.extractElement(2)==4)?0:1; }
''')

S(id='C09_mask_cast', prop='C09',
  edits=[(BE+'sparse_helpers.hpp', '''            while ((iter != iter_end) && !(std::get<1>(*iter))) {
                ++iter;
            }''','''            // masks are usually bool: compare in the integer domain
            while ((iter != iter_end) &&
                   (static_cast<int>(std::get<1>(*iter)) == 0)) {
                ++iter;
            }''')],
  needs='a mask of floating-point scalars with a stored value strictly between -1 and 1 and not zero',
  breaks='the mask element is treated as false',
  demo=H+'''
int main(){
  Vector<double> u(2),w(2),m(2); u.setElement(0,3); u.setElement(1,4); m.setElement(0,0.5); m.setElement(1,2);
  apply(w,m,NoAccumulate(),Identity<double>(),u,REPLACE);
  return (w.nvals()==2 && w.hasElement(0) && w.extractElement(0)==3)?0:1; }
''')

S(id='C10_resize_cols', prop='C10',
  edits=[(BE+'LilSparseMatrix.hpp', '''                    for (auto &row : m_data)
                    {
                        if (!row.empty())
                        {
                            auto it(row.begin());''','''                    for (auto &row : m_data)
                    {
                        if (!row.empty() && (row.size() > new_num_cols || &row != &m_data.back()))
                        {
                            auto it(row.begin());''')],
  needs='resize to fewer columns when the last row holds few entries, one of them beyond the new number of columns',
  breaks='an entry outside the new dimensions stays in the matrix and in nvals',
  demo=H+'''
int main(){
  Matrix<double> A(2,4); A.setElement(0,0,1); A.setElement(1,3,2);
  A.resize(2,2);
  if (A.nvals()!=1) return 1;
  A.resize(2,4);
  return (A.nvals()==1 && !A.hasElement(1,3))?0:1; }
''')

S(id='C11_stale_bitmap', prop='C11',
  edits=[(BE+'BitmapSparseVector.hpp', '''                    m_bitmap.resize(new_size);
                    m_vals.resize(new_size);
                }''','''                    m_vals.resize(new_size);
                    if (m_nvals == 0) m_bitmap.clear();
                    m_bitmap.resize(std::max<IndexType>(new_size, m_nvals ? m_bitmap.size()/2 : 0));
                }'''),
         (BE+'BitmapSparseVector.hpp','''                    m_vals.resize(new_size);
                    m_bitmap.resize(new_size, false);''','''                    m_vals.resize(new_size);
                    m_bitmap.resize(std::max<IndexType>(new_size, m_bitmap.size()), false);''')],
  needs='a vector with entries shrunk to less than half of its size and then grown again',
  breaks='an entry that the shrink removed is stored again after the growth',
  demo=H+'''
int main(){
  Vector<double> v(8); v.setElement(0,1); v.setElement(3,5);
  v.resize(2); v.resize(8);
  return (v.nvals()==1 && v.hasElement(0) && !v.hasElement(3))?0:1; }
''')

S(id='C13_extract_col', prop='C13',
  edits=[('src/graphblas/detail/checks.hpp', None, None)], needs='', breaks='', demo='')
SEEDS.pop()

S(id='C13_transpose_dims', prop='C13',
  edits=[('src/graphblas/operations.hpp','''        check_ncols_nrows(A, C, "transpose: A.ncols != C.nrows");''','''        check_ncols_nrows(C, A, "transpose: A.ncols != C.nrows");''')],
  needs='transpose into a matrix with the right number of columns and the wrong number of rows',
  breaks='no DimensionException; entries are written to rows that do not exist or the result is truncated',
  demo=H+'''
int main(){
  Matrix<double> A(2,3), C(4,2); A.setElement(0,0,1);
  try { transpose(C,NoMask(),NoAccumulate(),A); } catch (DimensionException const &) { return 0; }
  return 1; }
''')

S(id='C14_reduce_type', prop='C14',
  edits=[(BE+'sparse_helpers.hpp','''            D3ScalarType tmp;

            if (vec.size() == 1)''','''            std::conditional_t<std::is_integral_v<D3>, D3, D3ScalarType> tmp;

            if (vec.size() == 1)''')],
  needs='reduction of floating-point values into an integer result whose partial sums are not integers',
  breaks='every partial result is truncated to the output type, not only the final one',
  demo=H+'''
int main(){
  Matrix<double> A(1,4); for (int j=0;j<4;++j) A.setElement(0,j,0.5);
  Vector<int> w(1);
  reduce(w,NoMask(),NoAccumulate(),PlusMonoid<double>(),A);
  return (w.nvals()==1 && w.extractElement(0)==2)?0:1; }
''')

S(id='C20_sssp_iters', prop='C20',
  edits=[('src/algorithms/sssp.hpp','''        for (grb::IndexType k = 0; k < graph.nrows() - 1; ++k)
        {
            grb::vxm(dist,
                     grb::NoMask(), grb::Min<T>(),''','''        grb::IndexType const max_iters(
            std::min(graph.nrows() - 1, graph.nvals()/2 + 1));
        for (grb::IndexType k = 0; k < max_iters; ++k)
        {
            grb::vxm(dist,
                     grb::NoMask(), grb::Min<T>(),''')],
  needs='a directed graph whose longest shortest path uses more than half of its edges',
  breaks='the distances have not converged; far vertices get no distance',
  demo=H+ALG+'''
int main(){
  Matrix<double> A(6,6); for (int i=0;i<5;++i) A.setElement(i,i+1,1);
  Vector<double> d(6); d.setElement(0,0);
  algorithms::sssp(A,d);
  return (d.nvals()==6 && d.extractElement(5)==5)?0:1; }
''')

S(id='C24_pushrelabel_front', prop='C24',
  edits=[('src/algorithms/maxflow.hpp','''                list.insert(list.begin() + 0, t);

                p = 0;''','''                list.insert(list.begin() + 0, t);

                p += 1;''')],
  needs='a network where discharging a vertex gives excess back to a vertex that was already discharged',
  breaks='vertices earlier in the list are not discharged again; the flow returned is not the maximum flow',
  demo=H+ALG+'''
// brute-force minimum cut as the oracle over all small networks
int main(){
  int const n=5; unsigned st=12345;
  for (int it=0; it<4000; ++it){
    int c[5][5]={}; Matrix<double> C(n,n);
    for(int i=0;i<n;++i)for(int j=0;j<n;++j){ if(i==j||j==0||i==n-1)continue; st=st*1664525u+1013904223u; int v=(st>>16)%5; if(v){c[i][j]=v;C.setElement(i,j,v);} }
    int best=1e9; for(int s=0;s<(1<<n);++s) if((s&1)&&!(s>>(n-1)&1)){int t=0; for(int i=0;i<n;++i)for(int j=0;j<n;++j) if((s>>i&1)&&!(s>>j&1)) t+=c[i][j]; best=std::min(best,t);}
    bool anti=false; for(int i=0;i<n;++i)for(int j=0;j<n;++j) if(c[i][j]&&c[j][i]) anti=true;
    if (best==0) continue;
    if (algorithms::maxflow_push_relabel(C,0,n-1)!=best) return 1;
  }
  return 0; }
''')

S(id='C21_ktruss2_stop', prop='C21',
  edits=[('src/algorithms/k_truss.hpp','''            new_num_edges = A.nvals();

        } while (new_num_edges != num_edges);''','''            new_num_edges = A.nvals();

            // trusses only shrink while more than half of the edges are left
        } while ((new_num_edges != num_edges) && (2*new_num_edges > num_edges));''')],
  needs='a graph where one round of peeling removes at least half of the edges and the next must remove more',
  breaks='edges without enough support stay in the k-truss',
  demo=H+ALG+'''
static void e(Matrix<IndexType>&A,int i,int j){A.setElement(i,j,1);A.setElement(j,i,1);}
int main(){
  // k=4: K4 minus nothing is kept, chains of triangles are peeled layer by layer
  Matrix<IndexType> A(9,9);
  e(A,0,1);e(A,0,2);e(A,0,3);e(A,1,2);e(A,1,3);     // K4 minus an edge: no 4-truss, (0,1) has support 2
  e(A,3,4);e(A,4,5);e(A,5,6);
  auto T=algorithms::k_truss2(A,4);
  return T.nvals()==0?0:1; }
''')

S(id='C13_wrong_type', prop='C13',
  edits=[('src/graphblas/detail/checks.hpp','''            ss << msg1 << ", " << msg2 << ", (" << val1 << " >= " << val2 << ")";
            throw InvalidIndexException(ss.str());''','''            ss << msg1 << ", " << msg2 << ", (" << val1 << " >= " << val2 << ")";
            throw IndexOutOfBoundsException(ss.str());''')],
  needs='a row or column index that is out of range in extract/assign of a column or row',
  breaks='an index error of the API is reported as an execution error of another type',
  demo=H+'''
int main(){
  Matrix<double> A(2,2); Vector<double> w(2);
  try { extract(w,NoMask(),NoAccumulate(),A,AllIndices(),2); } catch (InvalidIndexException const &) { return 0; } catch (...) { return 1; }
  return 1; }
''')
