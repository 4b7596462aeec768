#pragma once
#include <lexy/mini.hpp>
