import numerics


def main():
    numerics.check('C01', 10000, 60000)
