// libstdc++'s stream templates as IR (they normally live in libstdc++.so).
#include <istream>
#include <ostream>
#include <streambuf>
#include <sstream>
template class std::basic_streambuf<char>;
template class std::basic_ios<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template std::ostream& std::__ostream_insert(std::ostream&, const char*, std::streamsize);
template class std::basic_stringbuf<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
