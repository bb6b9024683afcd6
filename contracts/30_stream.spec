// ---------- predicates on tokens ----------
// holds(p,k,s): the predicator p accepts a token of kind k with the text s.   predok(p): p may be asked.
ghost func holds(p iface, k int, s str) bool
ghost func predok(p iface) bool
axiom forall p iface, k int, s str {holds(p,k,s)} :: typeis(p, token.Type) ==> (holds(p,k,s) <==> k == as(p, token.Type))
axiom forall p iface {predok(p)} :: typeis(p, token.Type) ==> predok(p)
axiom forall p iface {predok(p)} :: predok(p) ==> p != nil
axiom forall p iface {predok(p)} :: predok(p) && typeis(p, *token.PredicatorImpl) ==> as(p, *token.PredicatorImpl) != nil
axiom forall p iface {predok(p)} :: predok(p) && typeis(p, *token.DirectivePredicator) ==> as(p, *token.DirectivePredicator) != nil
def raw(t) = ttext(ref(t.text), t.Start.Index, t.End.Index)
// the value of a token: reserved words in capitals
def tval(k,s) = k == token.ReservedWord ? upper(s) : s
immutable "E|int32"
immutable "E|token.Predicator"
immutable "F|token.PredicatorImpl"
immutable "F|token.DirectivePredicator"
immutable "F|token.Token"

iface func token.Predicator.Predicate(p, t)(r) {
  requires predok(p) && tokwf(t)
  ensures [C07] r <==> holds(p, t.Type, raw(t))
}
iface func token.Predicator.Name(p)(r) {
  requires predok(p)
}
fieldfn token.PredicatorImpl.predicate(self)(t)(r) {
  requires predok(iface(self)) && tokwf(t)
  ensures r <==> holds(iface(self), t.Type, raw(t))
}
func token.(*DirectivePredicator).Predicate(p, t)(r) {
  requires predok(iface(p)) && tokwf(t)
  fact forall k int, s str {holds(iface(p),k,s)} :: holds(iface(p),k,s) <==> has(p.nameSet, upper(s))
  ensures [C07] r <==> holds(iface(p), t.Type, raw(t))
}
func token.Predicators.Some(s, t)(r) {
  requires tokwf(t) && (forall i int {s[i]} :: 0 <= i < len(s) ==> predok(s[i]))
  ensures [C07] r <==> (exists p in s :: holds(p, t.Type, raw(t)))
  foreach k int :: forall j int {s[j]} :: 0 <= j < k ==> !holds(s[j], t.Type, raw(t))
  foreach k int :: forall j int {s[j]} :: 0 <= j <= k ==> !holds(s[j], t.Type, raw(t))
}
func token.Predicators.Every(s, t)(r) {
  requires tokwf(t) && (forall i int {s[i]} :: 0 <= i < len(s) ==> predok(s[i]))
  ensures [C07] r <==> (forall p in s :: holds(p, t.Type, raw(t)))
  foreach k int :: forall j int {s[j]} :: 0 <= j < k ==> holds(s[j], t.Type, raw(t))
  foreach k int :: forall j int {s[j]} :: 0 <= j <= k ==> holds(s[j], t.Type, raw(t))
}
func token.Some(ps)(r) {
  requires forall p in ps :: predok(p)
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> (exists p in ps :: holds(p,k,s)))
  ensures r != nil
}
func token.Every(ps)(r) {
  requires forall p in ps :: predok(p)
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> (forall p in ps :: holds(p,k,s)))
  ensures r != nil
}
func token.TokenType(typ)(r) {
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> k == typ)
  ensures r != nil
}
// one-character strings differ when their characters do (for ASCII)
theory chars
ghost func code(s str) int
axiom forall a int {str1(a)} :: 0 < a < 128 ? code(str1(a)) == a && len(str1(a)) == 1 : code(str1(a)) >= 128
ghost func code2(s str) int
axiom forall a int, b int {str2(a,b)} :: len(str2(a,b)) >= 2 && (0 < a < 128 ? code(str2(a,b)) == a : code(str2(a,b)) >= 128) && (0 < b < 128 ? code2(str2(a,b)) == b : code2(str2(a,b)) >= 128) && (0 < a < 128 && 0 < b < 128 ==> len(str2(a,b)) == 2)
theory base
func token.Symbol(rs)(r) {
  theory chars
  requires (len(rs) == 1 && 0 < rs[0] < 128) || (len(rs) == 2 && 0 < rs[0] < 128 && 0 < rs[1] < 128)
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> k == token.SpecialSymbol && s == (len(rs) == 1 ? str1(rs[0]) : str2(rs[0], rs[1])))
  ensures r != nil
}
func token.Value(v)(r) {
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> tval(k,s) == v)
  ensures r != nil
}
func token.UpperCase(v)(r) {
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> upper(tval(k,s)) == v)
  ensures r != nil
}
func token.Not(p)(r) {
  requires predok(p)
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> !holds(p,k,s))
  ensures r != nil
}
func token.Type.HasText(typ, v)(r) {
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> k == typ && tval(k,s) == v)
  ensures r != nil
}
func token.Type.HasKeyword(typ, v)(r) {
  requires typ == token.ReservedWord ==> reservedw(upper(v))
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> k == typ && tval(k,s) == v)
  ensures r != nil
}
func token.NewDirectivePredicator(set)(r) {
  define r: predok(iface(r)) && (forall k int, s str {holds(iface(r),k,s)} :: holds(iface(r),k,s) <==> has(set, upper(s)))
  ensures r != nil && fresh(r) && r.nameSet == set
}
def isdirective(s) = s == "ABSTRACT" || s == "CDECL" || s == "DYNAMIC" || s == "EXPORT" || s == "EXTERNAL" || s == "FAR" || s == "FORWARD" || s == "INDEX"
  || s == "LOCAL" || s == "MESSAGE" || s == "NAME" || s == "NEAR" || s == "OVERLOAD" || s == "OVERRIDE" || s == "PASCAL" || s == "REGISTER" || s == "REINTRODUCE"
  || s == "SAFECALL" || s == "STDCALL" || s == "VARARGS"
def isportability(s) = s == "PLATFORM" || s == "DEPRECATED" || s == "LIBRARY"
global [C09] token.directives: token.directives != nil && (forall s string {has(token.directives, s)} :: has(token.directives, s) <==> isdirective(s))
global [C09] token.portabilityDirectives: token.portabilityDirectives != nil && (forall s string {has(token.portabilityDirectives, s)} :: has(token.portabilityDirectives, s) <==> isportability(s))
global [C09] token.Directive: predok(iface(token.Directive)) && (forall k int, s str {holds(iface(token.Directive),k,s)} :: holds(iface(token.Directive),k,s) <==> isdirective(upper(s)))
global [C09] token.PortabilityDirective: predok(iface(token.PortabilityDirective)) && (forall k int, s str {holds(iface(token.PortabilityDirective),k,s)} :: holds(iface(token.PortabilityDirective),k,s) <==> isportability(upper(s)))
func token.Directives(names)(r) {
  requires forall s in names :: isdirective(s)
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> (exists n in names :: upper(s) == n))
  ensures r != nil
}
func token.PortabilityDirectives(names)(r) {
  requires forall s in names :: isportability(s)
  define r: predok(r) && (forall k int, s str {holds(r,k,s)} :: holds(r,k,s) <==> (exists n in names :: upper(s) == n))
  ensures r != nil
}
func token.(*Token).Raw(t)(r) {
  requires tokwf(t)
  fact clink(t.text)
  ensures [C01] r == slice(*t.text, t.Start.Index, t.End.Index)
  ensures [C01] text: raw(t) == rstr(r)
}
func token.(*Token).Is(t, p)(r) {
  requires predok(p) && tokwf(t)
  ensures [C07] r <==> holds(p, t.Type, raw(t))
}
