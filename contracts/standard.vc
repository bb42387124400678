//@ standard form
@fn Fbas::to_standard_form
@spec
    requires wf(*self), keyed(*self)
    ensures std_form(*self, r)
@entry
    broadcast use standard_lemmas;
@closure 1 : String
    requires true, ensures vr == $1.public_key,
