#include "node.h"
#include "cmark-gfm.h"
int cmark_node_get_item_index(cmark_node *node){ if(!node||node->type!=CMARK_NODE_ITEM) return 0; return node->as.list.start; }
