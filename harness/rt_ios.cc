#include <iostream>
template class std::basic_string<char>;
namespace std { _SinkStream rt_cout_, rt_cerr_; istream rt_cin_; }
