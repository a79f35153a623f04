//@needs core
//@fn object/object3d.rs DynamicObject::eq(other) -> r {{trait=PartialEq}}
ensures r == self.eqs(other)
//@end
