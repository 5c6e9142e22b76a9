------------------------------ MODULE Features ------------------------------
(***************************************************************************)
(* The feature sets of the crate, and which items of the API each of them  *)
(* offers: those all of whose needs are enabled.                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
Feature == {"quaternion", "statistics", "vector", "num-traits", "defmt"}
Item(name, needs) == [name |-> name, needs |-> needs]
Items == {
  Item("impls of F32", {}), Item("limits of F32", {}), Item("classes and bits of F32", {}), Item("methods of F32", {}), Item("methods of F32Ext", {}),
  Item("impls of Quaternion", {"quaternion"}), Item("Quaternion::new const", {"quaternion"}), Item("Quaternion methods", {"quaternion"}),
  Item("statistics for all samples", {"statistics"}), Item("num_traits impls", {"num-traits"}),
  Item("impls of Vector2d", {"vector"}), Item("impls of Vector3d", {"vector"}), Item("methods of vectors", {"vector"}), Item("impls of vector::Iter", {"vector"}),
  Item("Component for all types", {"vector"}),
  Item("F32", {}), Item("F32Ext", {}), Item("F32 constants", {}), Item("F32Ext for f32", {}),
  Item("statistics::Mean", {"statistics"}), Item("statistics::Variance", {"statistics"}), Item("statistics::StdDev", {"statistics"}),
  Item("statistics::Trim", {"statistics"}), Item("statistics::trim", {"statistics"}), Item("Mean for iterators of F32", {"statistics"}),
  Item("StdDev and Trim for slices", {"statistics"}),
  Item("vector::Vector2d", {"vector"}), Item("vector::Vector3d", {"vector"}), Item("vector::Component", {"vector"}),
  Item("vector::Vector", {"vector"}), Item("vector::Iter", {"vector"}), Item("aliases of Vector2d", {"vector"}), Item("aliases of Vector3d", {"vector"}),
  Item("Component for F32", {"vector"}), Item("conversions of vectors", {"vector"}),
  Item("Quaternion", {"quaternion"}), Item("Quaternion algebra", {"quaternion"}), Item("Quaternion conversions", {"quaternion"}),
  Item("Quaternion::from_two_vectors", {"quaternion", "vector"}), Item("Quaternion::axis_angle", {"quaternion", "vector"}),
  Item("Quaternion::rotate", {"quaternion", "vector"}), Item("From<Vector3d> for Quaternion", {"quaternion", "vector"}),
  Item("Mul<Vector3d> for Quaternion", {"quaternion", "vector"}),
  Item("num_traits", {"num-traits"}), Item("Zero for F32", {"num-traits"}), Item("One for F32", {"num-traits"}),
  Item("Num for F32", {"num-traits"}), Item("Inv for F32", {"num-traits"}),
  Item("Format for F32", {"defmt"}), Item("Format for Vector2d", {"defmt", "vector"}), Item("Format for Vector3d", {"defmt", "vector"}),
  Item("Format for Quaternion", {"defmt", "quaternion"}) }
Names == {it.name : it \in Items}
Exposed(on) == {it.name : it \in {i \in Items : i.needs \subseteq on}}
\* groups of functions, whose results must not depend on the other features
Groups == {
  Item("float", {}), Item("statistics", {"statistics"}), Item("vector", {"vector"}), Item("quaternion", {"quaternion"}),
  Item("rotations", {"quaternion", "vector"}), Item("numbers", {"num-traits"}) }
Offered(on) == {g.name : g \in {h \in Groups : h.needs \subseteq on}}
Differ(a, b) == (a \ b) \cup (b \ a)
=============================================================================
