// Structural invariants of a live tree (property P21), read through the library's own headers.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "verify.h"

#ifdef NO_WALK
void betree_verify_walk(const struct betree* tree, void (*on_sub)(void*, const void*), void (*on_violation)(void*, const char*), void* user, struct betree_verify_result* res)
{
    res->walked = 0;
}
#else

#include "betree.h"
#include "tree.h"
#include "utils.h"


#define MAXPATH 4096

struct walk {
    void (*on_sub)(void*, const void*);
    void (*on_violation)(void*, const char*);
    void* user;
    struct betree_verify_result* res;
    size_t nvars;
    betree_var_t path[MAXPATH]; // attributes partitioned on the way down
    size_t depth;
};

static void bad(struct walk* w, const char* what)
{
    w->on_violation(w->user, what);
}

static void walk_cnode(struct walk* w, const struct cnode* cnode, const struct cdir* parent, size_t level);

// is `a` inside `b`
static bool inside(const struct value_bound* a, const struct value_bound* b)
{
    switch(b->value_type) {
        case BETREE_BOOLEAN: return a->bmin >= b->bmin && a->bmax <= b->bmax && a->bmin <= a->bmax;
        case BETREE_INTEGER:
        case BETREE_INTEGER_LIST: return a->imin >= b->imin && a->imax <= b->imax && a->imin <= a->imax;
        case BETREE_FLOAT: return a->fmin >= b->fmin && a->fmax <= b->fmax && a->fmin <= a->fmax;
        case BETREE_STRING:
        case BETREE_STRING_LIST:
        case BETREE_INTEGER_ENUM: return a->smin >= b->smin && a->smax <= b->smax && a->smin <= a->smax;
        default: return false;
    }
}

// do `l` and `r` together cover `b`
static bool cover(const struct value_bound* l, const struct value_bound* r, const struct value_bound* b)
{
    switch(b->value_type) {
        case BETREE_BOOLEAN: return l->bmin == b->bmin && r->bmax == b->bmax && r->bmin <= l->bmax + 1;
        case BETREE_INTEGER:
        case BETREE_INTEGER_LIST: return l->imin == b->imin && r->imax == b->imax && (r->imin <= l->imax || r->imin - l->imax == 1);
        case BETREE_FLOAT:
            // two end points also serve: what lies between stays in the node itself
            return l->fmin == b->fmin && r->fmax == b->fmax && (r->fmin <= l->fmax || (l->fmin == l->fmax && r->fmin == r->fmax));
        case BETREE_STRING:
        case BETREE_STRING_LIST:
        case BETREE_INTEGER_ENUM: return l->smin == b->smin && r->smax == b->smax && (r->smin <= l->smax || r->smin - l->smax == 1);
        default: return false;
    }
}

static void walk_cdir(struct walk* w, const struct cdir* cdir, betree_var_t var, size_t level)
{
    w->res->cdirs++;
    if(level > 1000) { bad(w, "the tree is deeper than any domain allows"); return; }
    if(cdir->attr_var.var != var) bad(w, "a cluster is for another attribute than its partition");
    if(cdir->cnode == NULL) bad(w, "a cluster without a node");
    else walk_cnode(w, cdir->cnode, cdir, level);
    const struct cdir* half[2] = { cdir->lchild, cdir->rchild };
    for(int i = 0; i < 2; i++) {
        const struct cdir* h = half[i];
        if(h == NULL) continue;
        if(h == cdir) { bad(w, "a cluster is its own half"); return; }
        if(h->parent_type != CNODE_PARENT_CDIR || h->cdir_parent != cdir) bad(w, "a half does not point back to its cluster");
        if(h->bound.value_type != cdir->bound.value_type) bad(w, "a half is of another type than its cluster");
        else if(!inside(&h->bound, &cdir->bound)) bad(w, "a half lies outside the range that was split");
        walk_cdir(w, h, var, level + 1);
    }
    if((half[0] == NULL) != (half[1] == NULL)) bad(w, "a split produced one half only");
    if(half[0] && half[1] && !cover(&half[0]->bound, &half[1]->bound, &cdir->bound)) bad(w, "the halves of a split do not cover the range");
}

static void walk_cnode(struct walk* w, const struct cnode* cnode, const struct cdir* parent, size_t level)
{
    if(level > w->res->max_depth) w->res->max_depth = level;
    if(cnode->parent != parent) bad(w, "a node does not point back to its cluster");
    const struct lnode* lnode = cnode->lnode;
    if(lnode == NULL) bad(w, "a node without a leaf");
    else {
        w->res->leaves++;
        if(lnode->parent != cnode) bad(w, "a leaf does not point back to its node");
        if(lnode->sub_count > lnode->max) bad(w, "a leaf holds more expressions than its recorded capacity");
        for(size_t i = 0; i < lnode->sub_count; i++) {
            const struct betree_sub* sub = lnode->subs[i];
            if(sub == NULL) { bad(w, "a leaf lists no expression"); continue; }
            w->on_sub(w->user, sub);
            for(size_t j = 0; j < w->depth; j++)
                if(!sub_has_attribute(sub, w->path[j])) { bad(w, "an expression lies under a branch for an attribute it does not mention"); break; }
        }
    }
    const struct pdir* pdir = cnode->pdir;
    if(pdir == NULL) return;
    if(pdir->parent != cnode) bad(w, "a partition list does not point back to its node");
    for(size_t i = 0; i < pdir->pnode_count; i++) {
        const struct pnode* p = pdir->pnodes[i];
        w->res->pnodes++;
        if(p == NULL) { bad(w, "a partition is missing"); continue; }
        if(p->parent != pdir) bad(w, "a partition does not point back to its list");
        if(p->attr_var.var >= w->nvars) { bad(w, "a partition for an unknown attribute"); continue; }
        for(size_t j = 0; j < w->depth; j++)
            if(w->path[j] == p->attr_var.var) { bad(w, "an attribute is partitioned twice on one path"); break; }
        for(size_t j = 0; j < i; j++)
            if(pdir->pnodes[j] && pdir->pnodes[j]->attr_var.var == p->attr_var.var) { bad(w, "a node has two partitions for one attribute"); break; }
        if(p->cdir == NULL) { bad(w, "a partition without a cluster"); continue; }
        if(p->cdir->parent_type != CNODE_PARENT_PNODE || p->cdir->pnode_parent != p) bad(w, "a cluster does not point back to its partition");
        if(w->depth == MAXPATH) { bad(w, "the tree is deeper than any domain allows"); return; }
        w->path[w->depth++] = p->attr_var.var;
        walk_cdir(w, p->cdir, p->attr_var.var, level + 1);
        w->depth--;
    }
}

void betree_verify_walk(const struct betree* tree, void (*on_sub)(void*, const void*), void (*on_violation)(void*, const char*), void* user, struct betree_verify_result* res)
{
    static struct walk w;
    memset(&w, 0, sizeof w);
    w.on_sub = on_sub, w.on_violation = on_violation, w.user = user, w.res = res;
    w.nvars = tree->config->attr_domain_count;
    if(tree->cnode == NULL) { bad(&w, "a tree without a root"); return; }
    res->walked = 1;
    walk_cnode(&w, tree->cnode, NULL, 0);
}
#endif
