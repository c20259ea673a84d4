#pragma once
#include <fmt/core.h>   // fmt >= 11 has fmt/base.h; the installed one does not
