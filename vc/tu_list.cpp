// Instantiates static_list for the node types of the library.
#include <boost/openmethod.hpp>
using namespace boost::openmethod;
namespace bd = boost::openmethod::detail;
template class bd::static_list<bd::class_info>;
template class bd::static_list<bd::method_info>;
template class bd::static_list<bd::overrider_info>;
template<class L> bool use(L& l) {
    const L& c = l;
    return l.begin() == l.end() && l.begin() != l.end() && c.begin() == c.end() && c.begin() != c.end();
}
bool u(bd::static_list<bd::class_info>& a, bd::static_list<bd::method_info>& b, bd::static_list<bd::overrider_info>& c) {
    return use(a) && use(b) && use(c);
}
