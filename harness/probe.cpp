// plain use of the three collections: if this compiles, the toolchain and the headers are usable, and a harness that
// does not compile shows that the library rejects a program the property speaks about
#include <boost/poly_collection/algorithm.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/poly_collection/base_collection.hpp>
#include <boost/poly_collection/function_collection.hpp>
#include <boost/type_erasure/operators.hpp>
struct B { virtual ~B() {} };
struct D : B { int n; D(int n) : n(n) {} };
int main() {
  boost::base_collection<B> b; b.insert(D(1)); b.emplace<D>(2);
  boost::function_collection<int(int)> f; f.insert([](int x) { return x; });
  boost::any_collection<boost::type_erasure::relaxed> a; a.insert(1);
  int n = 0; boost::poly_collection::for_each(b.begin(), b.end(), [&](B&) { n++; }); for (auto& x : f) n += x(1);
  return (int)(b.size() + f.size() + a.size()) + n;
}
