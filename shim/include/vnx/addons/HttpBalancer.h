#pragma once
#include <vnx/all.h>
