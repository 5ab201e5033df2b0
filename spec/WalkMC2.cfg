SPECIFICATION Spec
CONSTANTS NX = 9
 NY = 7
INVARIANTS Touching Bounded Finished NotStuck CrossedAreNear
