// Makes libstdc++'s out-of-line std::string members available as IR (they normally live in libstdc++.so).
#include <string>
template class std::basic_string<char>;
