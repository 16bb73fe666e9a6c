#ifndef CMARK_HTML_H
#define CMARK_HTML_H
#include "buffer.h"
#include "node.h"
static inline void cmark_html_render_cr(cmark_strbuf *html) {
  if (html->size && html->ptr[html->size - 1] != '\n') cmark_strbuf_putc(html, '\n');
}
static inline void cmark_html_render_sourcepos(cmark_node *node, cmark_strbuf *html, int options) {
  (void)node;(void)html;(void)options;
}
#endif
