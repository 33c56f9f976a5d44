#pragma once
#define VER_PRODUCTBUILD 10011
