"""only the names that nlcodec.spark imports; behaviour comes from the stand-in in harness/lib_spark.py"""
from . import sql


class SparkContext:
    pass


class SparkConf:
    pass


class RDD:
    pass
