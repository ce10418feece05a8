/* stand-in for cmark-gfm's internal extensions/table.h (absent from this sandbox) */
#ifndef SV_TABLE_H
#define SV_TABLE_H
#include "cmark-gfm.h"
extern cmark_node_type CMARK_NODE_TABLE, CMARK_NODE_TABLE_ROW, CMARK_NODE_TABLE_CELL;
#endif
