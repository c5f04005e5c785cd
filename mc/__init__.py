"""Model-checking machinery for mealpy: see /verif/DESIGN.md."""
