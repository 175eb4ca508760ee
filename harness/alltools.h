// Every command line tool.
#pragma once
#include "apps.h"
#define main transform_main
#include "apps/transform/transform.cpp"
#undef main
#define main filter_main
#include "apps/filter/filter.cpp"
#undef main
#define main tool_main
#include "apps/tool/tool.cpp"
#undef main
#define main merge_main
#include "apps/merge/merge.cpp"
#undef main
#define main tile_main
#include "apps/tile/tile.cpp"
#undef main
#define main srs_main
#include "apps/srs/srs.cpp"
#undef main
#define main compress_main
#include "apps/compress/compress.cpp"
#undef main
#define main decompress_main
#include "apps/decompress/decompress.cpp"
#undef main
#define main info_main
#include "apps/info/info.cpp"
#undef main
#define main diff_main
#include "apps/diff/diff.cpp"
#undef main
