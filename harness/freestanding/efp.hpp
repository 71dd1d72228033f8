// The freestanding configuration: every header the library offers without the standard library.
#pragma once
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <memory>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <algorithm>
#include <random>
#include <locale>
#undef __STDC_HOSTED__
#define __STDC_HOSTED__ 0
#include <efp/cpp_core.hpp>
#include <efp/meta.hpp>
#include <efp/trait.hpp>
#include <efp/sequence.hpp>
#include <efp/enum.hpp>
#include <efp/maybe.hpp>
#include <efp/prelude.hpp>
#include <efp/cyclic.hpp>
#include <efp/numeric.hpp>
#include <efp/sort.hpp>
#include <efp/string.hpp>
#include <efp/c_utility.hpp>
#undef __STDC_HOSTED__
#define __STDC_HOSTED__ 1
