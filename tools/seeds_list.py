PRE = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include "tommy.c"\n#include "tommychain.h"\n#define CK(c) do { if (!(c)) { printf("failed: %s\\n", #c); exit(1); } } while (0)\n'
SEEDS = [
 dict(id="list-concat-single-first", property="C01", subs=[("tommylist.h", "	second_head->prev = first_tail;\n", "	second_head->prev = first_head;\n")],
   needs="concat onto a list of three or more elements followed by a backward walk or removal of the element at the seam", breaks="the backward link at the seam skips the members between head and old tail",
   demo=PRE + '''int main(void){ tommy_node n[6]; tommy_list a,b; int i; tommy_list_init(&a); tommy_list_init(&b);
for(i=0;i<4;++i) tommy_list_insert_tail(&a,&n[i],&n[i]); for(;i<6;++i) tommy_list_insert_tail(&b,&n[i],&n[i]);
tommy_list_concat(&a,&b); tommy_list_remove_existing(&a,&n[4]); CK(tommy_list_count(&a)==5); CK(tommy_list_tail(&a)==&n[5]); return 0; }'''),
 dict(id="list-remove-two", property="C01", subs=[("tommylist.h", "		*list = node->next; /* the new head, in case 0 */\n", "		*list = node->next != head->prev || !node->next ? node->next : node->next->next; /* the new head, in case 0 */\n")],
   needs="removal of the head of a list", breaks="x", demo=PRE + '''int main(void){ tommy_node n[3]; tommy_list a; tommy_list_init(&a); tommy_list_insert_tail(&a,&n[0],0); tommy_list_insert_tail(&a,&n[1],0); tommy_list_remove_existing(&a,&n[0]); CK(tommy_list_count(&a)==1); return 0; }'''),
 dict(id="list-inserthead-tail", property="C01", subs=[("tommylist.h", "	node->prev = head->prev;\n	head->prev = node;\n\n	/* insert in the \"0 terminated\" next list */\n	node->next = head;\n", "	node->prev = head->next ? head->prev : node;\n	head->prev = node;\n\n	/* insert in the \"0 terminated\" next list */\n	node->next = head;\n")],
   needs="insert_head into a list of exactly one element, then use of the tail", breaks="the tail of the list is wrong after the second head insertion",
   demo=PRE + '''int main(void){ tommy_node n[3]; tommy_list a; tommy_list_init(&a); tommy_list_insert_head(&a,&n[0],0); tommy_list_insert_head(&a,&n[1],0); CK(tommy_list_tail(&a)==&n[0]); tommy_list_insert_tail(&a,&n[2],0); CK(tommy_list_count(&a)==3); return 0; }'''),
 dict(id="list-remove-head-circular", property="C01", subs=[("tommylist.h", "	if (node->next)\n		node->next->prev = node->prev;\n	else\n		head->prev = node->prev; /* the last */\n", "	if (node->next)\n		node->next->prev = node->prev;\n	else if (head->next != node)\n		head->prev = node->prev; /* the last */\n")],
   needs="removal of the tail of a list of exactly two elements, then insertion at the tail", breaks="the head keeps a stale tail link",
   demo=PRE + '''int main(void){ tommy_node n[3]; tommy_list a; tommy_list_init(&a); tommy_list_insert_tail(&a,&n[0],0); tommy_list_insert_tail(&a,&n[1],0); tommy_list_remove_existing(&a,&n[1]); CK(tommy_list_tail(&a)==&n[0]); return 0; }'''),
 dict(id="list-concat-empty-second", property="C01", subs=[("tommylist.h", "	if (first_head == 0) {\n		*first = *second;\n", "	if (first_head == 0) {\n		*first = second_head->next && !second_head->next->next ? second_head->next->prev : *second;\n		if (second_head->next && !second_head->next->next) second_head->prev = second_head;\n")],
   needs="concat of a list of exactly two elements onto an empty list", breaks="the tail link of the result is stale",
   demo=PRE + '''int main(void){ tommy_node n[3]; tommy_list a,b; tommy_list_init(&a); tommy_list_init(&b); tommy_list_insert_tail(&b,&n[0],0); tommy_list_insert_tail(&b,&n[1],0); tommy_list_concat(&a,&b); CK(tommy_list_tail(&a)==&n[1]); return 0; }'''),
]
