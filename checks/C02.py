import numerics


def main():
    numerics.check('C02', 10000, 60000)
