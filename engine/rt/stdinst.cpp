// Library templates instantiated here so that they are instrumented as well.
#include <ios>
#include <istream>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
#include <iomanip>
#include <fstream>
namespace std {
template class basic_string<char>;
template basic_string<char> operator+(const basic_string<char> &, const basic_string<char> &);
template basic_string<char> operator+(const char *, const basic_string<char> &);
template basic_string<char> operator+(char, const basic_string<char> &);
template basic_istream<char> &getline(basic_istream<char> &, basic_string<char> &, char);
template basic_istream<char> &getline(basic_istream<char> &, basic_string<char> &);
template basic_istream<char> &operator>>(basic_istream<char> &, basic_string<char> &);
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template basic_ostream<char> &operator<<(basic_ostream<char> &, const char *);
template basic_ostream<char> &operator<<(basic_ostream<char> &, char);
template basic_ostream<char> &operator<<(basic_ostream<char> &, const basic_string<char> &);
template basic_ostream<char> &endl(basic_ostream<char> &);
template basic_ostream<char> &__ostream_insert(basic_ostream<char> &, const char *, streamsize);
} // namespace std
