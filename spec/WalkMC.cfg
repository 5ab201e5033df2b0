SPECIFICATION Spec
CONSTANTS NX = 5
 NY = 3
INVARIANTS Touching Bounded Finished NotStuck CrossedAreNear
