// Parts of libstdc++ that are not in headers, for the symbolic build.
#include <string>
template class std::basic_string<char>;
