# -*- coding: utf-8 -*-
"""
Entry point
"""
