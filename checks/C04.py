import numerics


def main():
    numerics.check('C04', 5000, 40000)
