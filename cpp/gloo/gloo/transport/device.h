#pragma once
#include <gloo/standin.h>
