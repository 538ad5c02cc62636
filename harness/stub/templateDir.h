#pragma once
#include <ct/core/templateDir.h>
