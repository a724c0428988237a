#ifndef VERIF_SHIM_INVOKE_SWAP
#define VERIF_SHIM_INVOKE_SWAP
#include <utility>
namespace verif_swap_impl { template<class T> void go(T& a, T& b){ using std::swap; swap(a,b);} }
namespace boost { namespace core { template<class T> void invoke_swap(T& a, T& b){ ::verif_swap_impl::go(a,b);} } }
#endif
