// Library templates whose bodies normally live in libstdc++.so, instantiated here so that they can be executed symbolically.
#include <string>
template class std::basic_string<char>;
