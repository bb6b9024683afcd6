// Depth-first walk. A trace is the sequence of nodes the visitor has been given; kid(n,i) is the i-th child of n.
ghost func nkids(n iface) int
ghost func kid(n iface, i int) iface
ghost func tadd(t int, n iface) int
ghost func visit(t int, n iface) int
ghost func visits(t int, n iface, i int) int
ghost var $tr int
ghost var $stop bool
ghost var $err iface
axiom forall t int, n iface {visit(t,n)} :: visit(t,n) == visits(tadd(t,n), n, nkids(n))
axiom forall t int, n iface {visits(t,n,0)} :: visits(t,n,0) == t
axiom forall t int, n iface, i int {visits(t,n,i), kid(n,i)} :: 0 <= i ==>
   visits(t,n,i+1) == (kid(n,i) == nil ? visits(t,n,i) : visit(visits(t,n,i), kid(n,i)))
immutable "E|astcore.Node|"
iface func astcore.Node.Children(n)(r) {
  trusted
  ensures len(r) == nkids(n) && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == kid(n,i))
}
func astcore.WalkDown(n, f)(err) {
  requires n != nil && !$stop
  modifies everything
  norec
  closure f(m)(e) {
    requires !$stop
    modifies everything
    ensures $tr == tadd(old($tr), m)
    ensures ($stop <==> e != nil) && $err == e
  }
  ensures [C16] stops: $stop <==> err != nil
  ensures [C16] error: err != nil ==> err == $err
  ensures [C16] preorder: err == nil ==> $tr == visit(old($tr), n)
  loopinv !$stop
  foreach s astcore.Nodes, k int :: $tr == visits(tadd(old($tr), n), n, k)
  foreach s astcore.Nodes, k int :: $tr == visits(tadd(old($tr), n), n, k + 1)
}
