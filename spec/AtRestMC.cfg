SPECIFICATION Spec
CONSTANTS Hold = 4
 MaxT = 22
INVARIANT OnlyWhenStill
PROPERTIES AlwaysWhenStill ClearedAtOnce
