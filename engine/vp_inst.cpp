// bodies of the library templates the code under test uses, so that they are interpreted, not modelled
#include <string>
template class std::basic_string<char>;
// The out-of-line part of libstdc++'s ordered containers, as an unbalanced search tree
// (same iteration order; balance only affects speed).
#include <map>
namespace std {
typedef _Rb_tree_node_base * _VpN;
void _Rb_tree_insert_and_rebalance(const bool left, _VpN x, _VpN p, _Rb_tree_node_base & header) throw() {
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
	if (left) {
		p->_M_left = x;
		if (p == &header) { header._M_parent = x; header._M_right = x; }
		else if (p == header._M_left) header._M_left = x;
	} else {
		p->_M_right = x;
		if (p == header._M_right) header._M_right = x;
	}
	header._M_color = _S_red;
}
static _VpN vp_inc(_VpN x) {
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	_VpN y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	if (x->_M_right != y) x = y;
	return x;
}
static _VpN vp_dec(_VpN x) {
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) { _VpN y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
	_VpN y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
_VpN _Rb_tree_increment(_VpN x) throw() { return vp_inc(x); }
const _Rb_tree_node_base * _Rb_tree_increment(const _Rb_tree_node_base * x) throw() { return vp_inc((_VpN)x); }
_VpN _Rb_tree_decrement(_VpN x) throw() { return vp_dec(x); }
const _Rb_tree_node_base * _Rb_tree_decrement(const _Rb_tree_node_base * x) throw() { return vp_dec((_VpN)x); }
_VpN _Rb_tree_rebalance_for_erase(_VpN const z, _Rb_tree_node_base & header) throw() {
	if (header._M_left == z) header._M_left = vp_inc(z);
	if (header._M_right == z) header._M_right = header._M_parent == z && !z->_M_left && !z->_M_right ? &header : vp_dec(z);
	_VpN r;		// takes the place of z
	if (!z->_M_left) r = z->_M_right;
	else if (!z->_M_right) r = z->_M_left;
	else {
		r = z->_M_right;
		while (r->_M_left) r = r->_M_left;
		if (r != z->_M_right) {
			r->_M_parent->_M_left = r->_M_right;
			if (r->_M_right) r->_M_right->_M_parent = r->_M_parent;
			r->_M_right = z->_M_right; r->_M_right->_M_parent = r;
		}
		r->_M_left = z->_M_left; r->_M_left->_M_parent = r;
	}
	if (z->_M_parent == &header && header._M_parent == z) header._M_parent = r;
	else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
	else z->_M_parent->_M_right = r;
	if (r) r->_M_parent = z->_M_parent;
	return z;
}
}
