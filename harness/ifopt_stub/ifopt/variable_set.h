#pragma once
#include <ifopt/ifopt_stub.h>
