SPECIFICATION Spec
CONSTANTS
  Areas = {1, 2, 3, 4, 5, 6, 8, 9, 10}
  MaxWidth = 9
INVARIANTS LabelAccepted NormalAccepted RowsAccepted TextAccepted Recognised ReadBack
