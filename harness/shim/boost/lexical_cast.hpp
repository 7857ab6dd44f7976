#pragma once
#include "symstream.h"
namespace boost {
class bad_lexical_cast : public std::bad_cast {};
template <class T, class S> struct sym_lex { static T go(const S &s) { std::ostringstream o; o << s; return o.str(); } };
template <class T, class S> inline T lexical_cast(const S &s) { return sym_lex<T, S>::go(s); }
}
