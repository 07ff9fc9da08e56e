// included first in every analysed translation unit: library containers are analysed as source
#pragma once
#define _GLIBCXX_ASSERTIONS 1
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
