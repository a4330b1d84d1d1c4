import numerics


def main():
    numerics.check('C03', 3000, 20000)
