(send-foo x
          y
          z)
