SPECIFICATION Spec
CONSTANTS
  Areas = {1, 2, 3, 4, 6}
  MaxWidth = 7
INVARIANTS LabelAccepted NormalAccepted RowsAccepted TextAccepted Recognised ReadBack
